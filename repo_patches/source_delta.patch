From bdf103de0f2388d44f5789b79a8fdd8b40e3903b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:25 +0000
Subject: [PATCH 01/85] fix: cone search haversine used sin(x)/2 instead of
 sin(x/2) for the declination term

---
 src/catalogs/record.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/catalogs/record.rs b/src/catalogs/record.rs
index fe25b16..c4a5145 100644
--- a/src/catalogs/record.rs
+++ b/src/catalogs/record.rs
@@ -106,9 +106,9 @@ pub(super) fn inside_cone(
     radius: Radians,
 ) -> bool {
     let d_ra = ra.value() - c_ra.value();
-    let s = (dec.value() - c_dec.value()).sin();
+    let s = ((dec.value() - c_dec.value()) / 2.0).sin();
     let s2 = (d_ra / 2.0).sin();
-    let a = (s / 2.0).powi(2) + dec.value().cos() * c_dec.value().cos() * s2 * s2;
+    let a = s * s + dec.value().cos() * c_dec.value().cos() * s2 * s2;
     let c = 2.0 * a.sqrt().min(1.0).asin();
     c <= radius.value()
 }
-- 
2.43.0


From 841616451fc2b475c3ab773f9ffaf92ed12a1d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:25 +0000
Subject: [PATCH 02/85] fix: a refused measurement row no longer contaminates
 the normal equations

---
 src/pod/estimation/wls.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pod/estimation/wls.rs b/src/pod/estimation/wls.rs
index b884caa..4144548 100644
--- a/src/pod/estimation/wls.rs
+++ b/src/pod/estimation/wls.rs
@@ -123,6 +123,8 @@ impl NormalEquations {
             )));
         }
         let w = 1.0 / (sigma * sigma);
+        // Validate the whole row before touching the accumulator, so that a
+        // refused row leaves the normal equations unchanged.
         for &(i, hi) in partials {
             if i >= self.n {
                 return Err(WlsSolverError::InvalidIndex {
@@ -135,6 +137,8 @@ impl NormalEquations {
                     "partial at index {i} must be finite (got {hi})"
                 )));
             }
+        }
+        for &(i, hi) in partials {
             // Accumulate into the upper triangle; symmetrise at solve time.
             self.b[(i, 0)] += w * hi * residual;
             for &(j, hj) in partials {
-- 
2.43.0


From b811ba124ac7bb0db7b8f6dacd565e3b617c96d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:25 +0000
Subject: [PATCH 03/85] fix: terrain mask sorts its samples after normalising
 their azimuths

---
 src/mission/geometry/terrain_mask.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mission/geometry/terrain_mask.rs b/src/mission/geometry/terrain_mask.rs
index 4d31e4d..a7a3646 100644
--- a/src/mission/geometry/terrain_mask.rs
+++ b/src/mission/geometry/terrain_mask.rs
@@ -19,12 +19,12 @@ pub struct TerrainMask {
 impl TerrainMask {
     /// Build a terrain mask from `(azimuth, elevation)` samples. Empty
     /// inputs produce a flat zero mask.
-    pub fn new(mut samples: Vec<(Radians, Radians)>) -> Self {
-        samples.sort_by(|a, b| a.0.value().partial_cmp(&b.0.value()).unwrap());
-        let s = samples
+    pub fn new(samples: Vec<(Radians, Radians)>) -> Self {
+        let mut s: Vec<(f64, f64)> = samples
             .into_iter()
             .map(|(a, e)| (a.value().rem_euclid(core::f64::consts::TAU), e.value()))
             .collect();
+        s.sort_by(|a, b| a.0.total_cmp(&b.0));
         Self { samples: s }
     }
 
-- 
2.43.0


From 1bb2c5f78ee9eb12ebdaa2968b85368258c30dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:25 +0000
Subject: [PATCH 04/85] fix: a body behind the target no longer counts as
 occulting it

---
 src/mission/geometry/occultation.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mission/geometry/occultation.rs b/src/mission/geometry/occultation.rs
index b7463e6..980716e 100644
--- a/src/mission/geometry/occultation.rs
+++ b/src/mission/geometry/occultation.rs
@@ -68,6 +68,10 @@ where
     if nt == 0.0 || no == 0.0 {
         return 0.0;
     }
+    // A body farther away than the target cannot hide it.
+    if no > nt {
+        return 0.0;
+    }
     let app_t = (tr / nt).atan(); // angular radius of target
     let app_o = (or_ / no).atan(); // angular radius of occulter
     let cos_sep = d_t.dot(&d_o).value() / (nt * no);
-- 
2.43.0


From cce12765b895ff8caeea410f5ff7b459335342e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:09 +0000
Subject: [PATCH 05/85] fix: culminations closer than one scan step to the
 window ends were missed

---
 src/event/search/extrema.rs | 46 ++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 24 deletions(-)

diff --git a/src/event/search/extrema.rs b/src/event/search/extrema.rs
index b365a30..9018942 100644
--- a/src/event/search/extrema.rs
+++ b/src/event/search/extrema.rs
@@ -245,30 +245,32 @@ where
         return result;
     }
 
-    let mut t0 = t_start_v;
-    let mut f0 = f(t0);
-    let mut t1 = {
-        let t_next = crate::time::ModifiedJulianDate::new((t0.raw() + step_v).value());
-        if t_next.raw() <= t_end_v.raw() {
-            t_next
-        } else {
-            t_end_v
+    // Regular grid, plus one probe just inside each end so that an extremum
+    // closer to the window edge than one step still shows as a slope change.
+    let probe = PROBE_EPS.min((t_end_v.raw() - t_start_v.raw()) / 4.0);
+    let mut times = vec![
+        t_start_v,
+        crate::time::ModifiedJulianDate::new((t_start_v.raw() + probe).value()),
+    ];
+    let last_inner = crate::time::ModifiedJulianDate::new((t_end_v.raw() - probe).value());
+    let mut t = crate::time::ModifiedJulianDate::new((t_start_v.raw() + step_v).value());
+    while t < last_inner {
+        if t > times[1] {
+            times.push(t);
         }
-    };
+        t = crate::time::ModifiedJulianDate::new((t.raw() + step_v).value());
+    }
+    times.push(last_inner);
+    times.push(t_end_v);
+
+    let mut t0 = times[0];
+    let mut t1 = times[1];
     let mut f1 = f(t1);
-    let mut prev_rising = f1 > f0;
+    let mut prev_rising = f1 > f(t0);
 
-    loop {
-        let t2 = {
-            let t_next = crate::time::ModifiedJulianDate::new((t1.raw() + step_v).value());
-            if t_next.raw() <= t_end_v.raw() {
-                t_next
-            } else {
-                t_end_v
-            }
-        };
+    for &t2 in &times[2..] {
         if t2 <= t1 {
-            break;
+            continue;
         }
         let f2 = f(t2);
         let now_rising = f2 > f1;
@@ -292,15 +294,11 @@ where
         }
 
         t0 = t1;
-        f0 = f1;
         t1 = t2;
         f1 = f2;
         prev_rising = now_rising;
     }
 
-    // Suppress the unused-variable warning for f0
-    let _ = f0;
-
     result.sort_by(|a, b| a.t.partial_cmp(&b.t).unwrap());
     result
 }
-- 
2.43.0


From 132ba7f03514c6a204cecf430af0fa162f7d7f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:09 +0000
Subject: [PATCH 06/85] fix: altitude crossings lost by the polynomial root
 search, on segment edges, at window starts and at tangencies

---
 src/event/search/crossings.rs     | 103 ++++++++++++++++++++++++++++--
 src/event/search/scan_fallback.rs |  10 +--
 2 files changed, 100 insertions(+), 13 deletions(-)

diff --git a/src/event/search/crossings.rs b/src/event/search/crossings.rs
index 18a107e..6c7ce55 100644
--- a/src/event/search/crossings.rs
+++ b/src/event/search/crossings.rs
@@ -10,7 +10,9 @@
 
 use cheby::{fit_dyn_from_fn, RootOptions};
 
-use crate::event::altitude::search::{InternalSearchConfig, CROSSING_DEDUPE_EPS};
+use crate::event::altitude::search::{
+    InternalSearchConfig, CROSSING_DEDUPE_EPS, DEFAULT_SCAN_STEP,
+};
 use crate::event::search::intervals::LabeledCrossing;
 use crate::event::search::scan_fallback;
 use crate::qtty::{Day, Quantity};
@@ -98,7 +100,7 @@ where
         return (Vec::new(), false, diagnostics);
     }
 
-    let start_above = eval_signal(signal, period.start, &mut diagnostics) > threshold_sin;
+    let start_above = above_at_start(period, signal, threshold_sin, opts, &mut diagnostics);
     let fallback_step = opts.fallback_scan_step(fallback_step);
 
     if opts.uses_scan_baseline() {
@@ -147,6 +149,32 @@ where
     (crossings, start_above, diagnostics)
 }
 
+/// Whether the signal is above the threshold when the window opens; a window that opens on a
+/// crossing takes the side the signal is about to enter.
+fn above_at_start<F>(
+    period: Interval<Mjd>,
+    signal: &F,
+    threshold_sin: f64,
+    opts: InternalSearchConfig,
+    diagnostics: &mut SearchDiagnostics,
+) -> bool
+where
+    F: Fn(Mjd) -> f64,
+{
+    let at_start = eval_signal(signal, period.start, diagnostics) - threshold_sin;
+    if at_start.abs() > opts.chebyshev.max_residual {
+        return at_start > 0.0;
+    }
+    let span = (period.end.raw() - period.start.raw()).value();
+    let probe = (span * 0.5).min(1e-6);
+    precise_residual_days(
+        signal,
+        mjd_days(period.start) + probe,
+        threshold_sin,
+        diagnostics,
+    ) > 0.0
+}
+
 struct SegmentSearch<'a, F>
 where
     F: Fn(Mjd) -> f64,
@@ -205,6 +233,26 @@ where
         return;
     }
 
+    // The polynomial root finder may lose roots; its own sign changes tell.
+    let sign_changes = definite_sign_changes(
+        |x| poly.evaluate(x),
+        search.opts.chebyshev.max_tail_norm,
+    );
+    if sign_changes > roots.len() {
+        fallback_segment(search, segment);
+        return;
+    }
+
+    // A root on the segment boundary belongs to both neighbours and to neither
+    // polynomial's open interval: let the scan label it from its end values.
+    if [-1.0, 1.0]
+        .iter()
+        .any(|&x| poly.evaluate(x).abs() <= search.opts.chebyshev.max_tail_norm)
+    {
+        fallback_segment(search, segment);
+        return;
+    }
+
     let mut segment_crossings = Vec::new();
     for root_x in roots {
         let slope = derivative.evaluate(root_x).abs();
@@ -231,6 +279,24 @@ where
     search.out.extend(segment_crossings);
 }
 
+/// Number of sign changes of `p` over a fixed grid on [-1, 1], ignoring values within `eps` of zero.
+fn definite_sign_changes(p: impl Fn(f64) -> f64, eps: f64) -> usize {
+    const PROBES: usize = 72;
+    let mut changes = 0;
+    let mut last = 0.0;
+    for i in 0..=PROBES {
+        let v = p(-1.0 + 2.0 * i as f64 / PROBES as f64);
+        if v.abs() <= eps {
+            continue;
+        }
+        if last != 0.0 && v.signum() != last {
+            changes += 1;
+        }
+        last = v.signum();
+    }
+    changes
+}
+
 fn root_options_for_segment(opts: &InternalSearchConfig, segment_span_days: f64) -> RootOptions {
     let span = segment_span_days.max(MIN_SEGMENT_DAYS);
     let unit_tol = (opts.time_tolerance.value() / span).clamp(f64::EPSILON, 0.25);
@@ -281,9 +347,11 @@ where
     F: Fn(Mjd) -> f64,
 {
     search.diagnostics.fallback_segments += 1;
+    // The provider's hint assumes a smooth signal; a segment that defeated the
+    // polynomial is scanned at the default spacing at least.
     search.out.extend(scan_fallback::scan_labelled_crossings(
         segment.as_interval(),
-        search.fallback_step,
+        search.fallback_step.min(DEFAULT_SCAN_STEP),
         search.signal,
         search.threshold_sin,
         search.opts.time_tolerance,
@@ -312,7 +380,10 @@ where
     };
 
     let residual = (eval_signal(signal, refined, diagnostics) - threshold_sin).abs();
-    if !residual.is_finite() || residual > opts.chebyshev.max_residual {
+    // A refined root is already within the residual or the time tolerance.
+    if !residual.is_finite()
+        || (!opts.chebyshev.refine && residual > opts.chebyshev.max_residual)
+    {
         return None;
     }
 
@@ -455,9 +526,29 @@ fn looser_radius_exhausts_segment(center: f64, radius: f64, start: f64, end: f64
     center - radius <= start && center + radius >= end
 }
 
-fn sort_dedup_crossings(crossings: &mut Vec<LabeledCrossing>) {
+/// Sort by time and merge labels of the same instant. Duplicates of one crossing collapse to a
+/// single label; opposite labels at one instant are a tangency and cancel out.
+pub(crate) fn sort_dedup_crossings(crossings: &mut Vec<LabeledCrossing>) {
     crossings.sort_by(|a, b| a.t.partial_cmp(&b.t).unwrap_or(std::cmp::Ordering::Equal));
-    crossings.dedup_by(|a, b| (a.t.raw() - b.t.raw()).abs() < CROSSING_DEDUPE_EPS);
+    let mut merged: Vec<LabeledCrossing> = Vec::with_capacity(crossings.len());
+    let mut i = 0;
+    while i < crossings.len() {
+        let first = crossings[i];
+        let mut j = i + 1;
+        while j < crossings.len()
+            && (crossings[j].t.raw() - first.t.raw()).abs() < CROSSING_DEDUPE_EPS
+        {
+            j += 1;
+        }
+        if crossings[i..j]
+            .iter()
+            .all(|c| c.direction == first.direction)
+        {
+            merged.push(first);
+        }
+        i = j;
+    }
+    *crossings = merged;
 }
 
 #[cfg(test)]
diff --git a/src/event/search/scan_fallback.rs b/src/event/search/scan_fallback.rs
index 0ae4ca4..68b9ad7 100644
--- a/src/event/search/scan_fallback.rs
+++ b/src/event/search/scan_fallback.rs
@@ -3,12 +3,13 @@
 
 //! Scan+Brent fallback baseline for threshold crossing discovery.
 
-use crate::event::altitude::search::CROSSING_DEDUPE_EPS;
 use crate::event::search::intervals::LabeledCrossing;
 use crate::qtty::{Day, Quantity};
 use crate::time::{Interval, ModifiedJulianDate};
 
-use super::crossings::{eval_signal, precise_residual_days, SearchDiagnostics, POLY_ZERO_TOL};
+use super::crossings::{
+    eval_signal, precise_residual_days, sort_dedup_crossings, SearchDiagnostics, POLY_ZERO_TOL,
+};
 
 type Days = Quantity<Day>;
 type Mjd = ModifiedJulianDate;
@@ -285,11 +286,6 @@ fn mjd_from_days(days: f64) -> Mjd {
     ModifiedJulianDate::new(days)
 }
 
-fn sort_dedup_crossings(crossings: &mut Vec<LabeledCrossing>) {
-    crossings.sort_by(|a, b| a.t.partial_cmp(&b.t).unwrap_or(std::cmp::Ordering::Equal));
-    crossings.dedup_by(|a, b| (a.t.raw() - b.t.raw()).abs() < CROSSING_DEDUPE_EPS);
-}
-
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 14783652fc29907c866fe2e236de14adce3fea35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:08 +0000
Subject: [PATCH 07/85] fix: solar day predictions are checked against the
 Sun's side of the threshold over the whole window

---
 src/event/search/crossings.rs   |  2 +-
 src/event/solar/daily_events.rs | 79 ++++++++++++++++++++++++++++++---
 src/event/solar/periods.rs      | 20 +++++++--
 3 files changed, 89 insertions(+), 12 deletions(-)

diff --git a/src/event/search/crossings.rs b/src/event/search/crossings.rs
index 6c7ce55..489fd8b 100644
--- a/src/event/search/crossings.rs
+++ b/src/event/search/crossings.rs
@@ -151,7 +151,7 @@ where
 
 /// Whether the signal is above the threshold when the window opens; a window that opens on a
 /// crossing takes the side the signal is about to enter.
-fn above_at_start<F>(
+pub(crate) fn above_at_start<F>(
     period: Interval<Mjd>,
     signal: &F,
     threshold_sin: f64,
diff --git a/src/event/solar/daily_events.rs b/src/event/solar/daily_events.rs
index ae097af..4bd9053 100644
--- a/src/event/solar/daily_events.rs
+++ b/src/event/solar/daily_events.rs
@@ -24,6 +24,9 @@ use crate::time::{Interval, JulianDate, ModifiedJulianDate};
 use super::altitude::sun_altitude_rad;
 
 const GRAZE_EPS: f64 = 1e-3;
+/// A culmination this close to the threshold (in `sin(altitude)`) is searched instead of
+/// predicted: the declination drift within the day decides whether and when it crosses.
+const GRAZE_MARGIN: f64 = 1e-2;
 /// Hour-angle rate used for candidate spacing (rad per mean solar day).
 const HA_RATE_RAD_PER_DAY: f64 = std::f64::consts::TAU;
 
@@ -248,8 +251,8 @@ pub(crate) fn solar_daily_crossings_for_thresholds_impl(
         }
     }
 
-    for crossings in &mut results {
-        sort_dedup_labelled(crossings);
+    for (crossings, thr_sin) in results.iter_mut().zip(threshold_sins) {
+        settle_window_crossings(site, window, thr_sin, opts, crossings, &mut diagnostics);
     }
 
     results
@@ -326,7 +329,7 @@ pub(crate) fn solar_daily_crossings_impl(
         ));
     }
 
-    sort_dedup_labelled(&mut labelled);
+    settle_window_crossings(site, window, thr_sin, opts, &mut labelled, &mut diagnostics);
     diagnostics.refined_crossings = labelled.len();
     (labelled, diagnostics)
 }
@@ -381,13 +384,15 @@ fn predict_day_crossings(
     }
 
     let cos_h0 = (thr_sin - sin_lat * state.sin_dec) / denom;
-    let case = if cos_h0 > 1.0 + GRAZE_EPS {
+    let margin = GRAZE_EPS.max(GRAZE_MARGIN / denom.abs());
+    let case = if cos_h0 > 1.0 + margin {
         DayThresholdCase::AlwaysBelow
-    } else if cos_h0 < -1.0 - GRAZE_EPS {
+    } else if cos_h0 < -1.0 - margin {
         DayThresholdCase::AlwaysAbove
     } else if !(-1.0..=1.0).contains(&cos_h0)
         || (cos_h0 + 1.0).abs() < GRAZE_EPS
         || (cos_h0 - 1.0).abs() < GRAZE_EPS
+        || (cos_h0.abs() - 1.0).abs() * denom.abs() < GRAZE_MARGIN
     {
         diagnostics.grazing_days += 1;
         return fallback_solar_crossings_for_window(
@@ -949,9 +954,69 @@ pub(crate) fn solar_twilight_profile_impl(
     solar_daily_crossings_for_thresholds_impl(site, window, thresholds, opts)
 }
 
-fn sort_dedup_labelled(crossings: &mut Vec<LabeledCrossing>) {
+/// Merge the per-day predictions and check that together they explain the whole window: between
+/// consecutive crossings the Sun must be on the side both neighbours claim. Otherwise the window
+/// is searched without the predictor.
+fn settle_window_crossings(
+    site: Geodetic<ECEF>,
+    window: Interval<ModifiedJulianDate>,
+    thr_sin: f64,
+    opts: InternalSearchConfig,
+    labelled: &mut Vec<LabeledCrossing>,
+    diagnostics: &mut SolarDailyDiagnostics,
+) {
+    let collisions = sort_dedup_labelled(labelled);
+
+    let tol = residual_tol(opts);
+    let agrees = |t: ModifiedJulianDate, above: bool, diagnostics: &mut SolarDailyDiagnostics| {
+        let residual = solar_residual(site, t, thr_sin, diagnostics);
+        residual.abs() <= tol || (residual > 0.0) == above
+    };
+    let mut consistent = collisions == 0;
+    let mut from = window.start;
+    let mut above = {
+        let residual = solar_residual(site, window.start, thr_sin, diagnostics);
+        match labelled.first() {
+            // A window that opens on a crossing.
+            Some(first) if residual.abs() <= tol * 10.0 => first.direction < 0,
+            _ => residual > 0.0,
+        }
+    };
+    for crossing in labelled.iter() {
+        consistent &= above == (crossing.direction < 0);
+        if consistent && crossing.t.raw() - from.raw() > CROSSING_DEDUPE_EPS {
+            consistent = agrees(
+                midpoint(Interval::new(from, crossing.t)),
+                above,
+                diagnostics,
+            );
+        }
+        from = crossing.t;
+        above = crossing.direction > 0;
+    }
+    if consistent && window.end.raw() - from.raw() > CROSSING_DEDUPE_EPS {
+        consistent = agrees(
+            midpoint(Interval::new(from, window.end)),
+            above,
+            diagnostics,
+        ) && agrees(window.end, above, diagnostics);
+    }
+
+    if !consistent {
+        *labelled = fallback_day(site, window, thr_sin, opts, diagnostics);
+    }
+}
+
+/// Sort and deduplicate; returns how many crossings of opposite direction coincide.
+fn sort_dedup_labelled(crossings: &mut Vec<LabeledCrossing>) -> usize {
     crossings.sort_by(|a, b| a.t.partial_cmp(&b.t).unwrap_or(std::cmp::Ordering::Equal));
-    crossings.dedup_by(|a, b| (a.t.raw() - b.t.raw()).abs() < CROSSING_DEDUPE_EPS);
+    let mut collisions = 0;
+    crossings.dedup_by(|a, b| {
+        let close = (a.t.raw() - b.t.raw()).abs() < CROSSING_DEDUPE_EPS;
+        collisions += usize::from(close && a.direction != b.direction);
+        close
+    });
+    collisions
 }
 
 #[cfg(test)]
diff --git a/src/event/solar/periods.rs b/src/event/solar/periods.rs
index 831dd8d..c74598c 100644
--- a/src/event/solar/periods.rs
+++ b/src/event/solar/periods.rs
@@ -10,6 +10,7 @@ use crate::coordinates::centers::Geodetic;
 use crate::coordinates::frames::ECEF;
 use crate::event::altitude::search::InternalSearchConfig;
 use crate::event::altitude::CrossingEvent;
+use crate::event::search::crossings;
 use crate::event::search::periods as threshold_periods;
 use crate::qtty::*;
 use crate::time::{Interval, ModifiedJulianDate};
@@ -56,12 +57,12 @@ pub(crate) fn solar_altitude_ranges_impl(
     let min_sin = range.0.to::<Radian>().sin();
     let max_sin = range.1.to::<Radian>().sin();
 
-    let start_sin_altitude = sun_altitude_rad(period.start, &site).sin();
+    let start_above = |thr_sin| solar_above_at_start(site, period, thr_sin, opts);
     threshold_periods::assemble_in_range_periods(
         min_crossings,
-        start_sin_altitude > min_sin,
+        start_above(min_sin),
         max_crossings,
-        start_sin_altitude > max_sin,
+        start_above(max_sin),
         period,
     )
 }
@@ -82,11 +83,22 @@ fn solar_labelled_crossings(
     opts: InternalSearchConfig,
 ) -> (Vec<crate::event::search::intervals::LabeledCrossing>, bool) {
     let thr_sin = threshold.to::<Radian>().sin();
-    let start_above = sun_altitude_rad(period.start, &site).sin() > thr_sin;
+    let start_above = solar_above_at_start(site, period, thr_sin, opts);
     let (labelled, _) = solar_daily_crossings_impl(site, period, threshold, opts);
     (labelled, start_above)
 }
 
+fn solar_above_at_start(
+    site: Geodetic<ECEF>,
+    period: Interval<ModifiedJulianDate>,
+    thr_sin: f64,
+    opts: InternalSearchConfig,
+) -> bool {
+    let signal = |t: ModifiedJulianDate| sun_altitude_rad(t, &site).sin();
+    let mut diagnostics = crossings::SearchDiagnostics::default();
+    crossings::above_at_start(period, &signal, thr_sin, opts, &mut diagnostics)
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 3a7358aa9f68cd14c700e6f5092d50584173c13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:41 +0000
Subject: [PATCH 08/85] fix: the Galactic matrix maps ICRS to Galactic, it was
 used the other way round

---
 src/coordinates/transform/providers/frames_catalog.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/coordinates/transform/providers/frames_catalog.rs b/src/coordinates/transform/providers/frames_catalog.rs
index a01fab2..74cafc2 100644
--- a/src/coordinates/transform/providers/frames_catalog.rs
+++ b/src/coordinates/transform/providers/frames_catalog.rs
@@ -13,7 +13,8 @@
 use super::*;
 use crate::coordinates::transform::frames::bias;
 
-const GALACTIC_TO_ICRS: Rotation3 = Rotation3::from_matrix_unchecked([
+/// Rows are the Galactic axes in ICRS (centre, l = 90 deg, north pole): Hipparcos vol. 1, 1.5.3.
+const ICRS_TO_GALACTIC: Rotation3 = Rotation3::from_matrix_unchecked([
     [
         -0.054_875_560_416_215_4,
         -0.873_437_090_234_885_1,
@@ -22,7 +23,7 @@ const GALACTIC_TO_ICRS: Rotation3 = Rotation3::from_matrix_unchecked([
     [
         0.494_109_427_875_583_7,
         -0.444_829_629_960_011_2,
-        0.746_982_244_580_286_6,
+        0.746_982_244_497_218_9,
     ],
     [
         -0.867_666_149_019_004_7,
@@ -37,7 +38,7 @@ impl FrameRotationProvider<Galactic, ICRS> for () {
         _jd: JulianDate,
         _ctx: &AstroContext<Eph, Eop>,
     ) -> Rotation3 {
-        GALACTIC_TO_ICRS
+        ICRS_TO_GALACTIC.inverse()
     }
 }
 
@@ -47,7 +48,7 @@ impl FrameRotationProvider<ICRS, Galactic> for () {
         _jd: JulianDate,
         _ctx: &AstroContext<Eph, Eop>,
     ) -> Rotation3 {
-        GALACTIC_TO_ICRS.inverse()
+        ICRS_TO_GALACTIC
     }
 }
 
-- 
2.43.0


From 4d7b91cbcb0e92ce0981ea2aed976c84992746a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:36 +0000
Subject: [PATCH 09/85] fix: the GCRS to CIRS matrix tilted the pole the wrong
 way

---
 src/astro/cio.rs                     | 19 +++++++------------
 src/astro/earth_rotation_provider.rs |  5 +----
 2 files changed, 8 insertions(+), 16 deletions(-)

diff --git a/src/astro/cio.rs b/src/astro/cio.rs
index 9250fb0..e0ff37f 100644
--- a/src/astro/cio.rs
+++ b/src/astro/cio.rs
@@ -119,7 +119,7 @@ pub fn cip_cio(jd: JulianDate, dpsi: Radians, deps: Radians) -> CipCio {
 /// (CIRS), using the CIP coordinates (X, Y) and CIO locator s.
 ///
 /// ```text
-/// Q(t) = R₃(−E)·R₂(−d)·R₃(E + s)
+/// Q(t) = R₃(−(E + s))·R₂(d)·R₃(E)
 /// ```
 ///
 /// where `E = atan2(Y, X)`, `d = acos(√(1 − X² − Y²))`.
@@ -136,8 +136,8 @@ pub fn gcrs_to_cirs_matrix(x: CipCoordinates, y: CipCoordinates, s: Radians) ->
     let (se, ce) = e.sin_cos();
     let (sd, cd) = d.sin_cos();
 
-    // R₃(-(E+s)) · R₂(-d) · R₃(E)
-    // Following SOFA's iauC2ixys construction:
+    // R₃(-(E+s)) · R₂(d) · R₃(E) with passive elementary rotations, as in SOFA's iauC2ixys:
+    // the third row is the CIP in the GCRS.
     let es = e + s.value();
     let (ses, ces) = es.sin_cos();
 
@@ -146,25 +146,20 @@ pub fn gcrs_to_cirs_matrix(x: CipCoordinates, y: CipCoordinates, s: Radians) ->
         [
             ces * cd * ce + ses * se,
             ces * cd * se - ses * ce,
-            ces * sd,
+            -ces * sd,
         ],
         [
             ses * cd * ce - ces * se,
             ses * cd * se + ces * ce,
-            ses * sd,
+            -ses * sd,
         ],
         [
-            -sd * ce,
-            -sd * se,
+            sd * ce,
+            sd * se,
             cd,
         ],
     ];
 
-    // The matrix above is Q^T (intermediate-to-celestial). We need Q (celestial-to-intermediate).
-    // Actually, SOFA's C2IXYS returns the celestial-to-intermediate matrix directly.
-    // Let's verify: at J2000 with X≈0, Y≈0, s≈0, this should be ≈ identity.
-    // E = atan2(0,0) = 0, d = 0, s = 0.
-    // m[0][0] = 1, m[1][1] = 1, m[2][2] = 1. ✓
     Rotation3::from_matrix_unchecked(m)
 }
 
diff --git a/src/astro/earth_rotation_provider.rs b/src/astro/earth_rotation_provider.rs
index 6d1d709..cf96c88 100644
--- a/src/astro/earth_rotation_provider.rs
+++ b/src/astro/earth_rotation_provider.rs
@@ -111,10 +111,7 @@ pub(crate) fn itrs_to_equatorial_mean_j2000_rotation<Eph, Eop: EopProvider, Nut:
     let w = polar_motion_matrix_from_eop(eop.xp, eop.yp, jd);
     let era = earth_rotation_angle(jd_ut1);
 
-    // NOTE: `cio::gcrs_to_cirs_matrix` and `Rotation3::rz` conventions are
-    // aligned such that this composition matches the SOFA chain for
-    // ITRS -> GCRS in this codebase.
-    let itrs_to_gcrs = q * affn::Rotation3::rz(-era) * w.inverse();
+    let itrs_to_gcrs = q.inverse() * affn::Rotation3::rz(-era) * w.inverse();
     let icrs_to_j2000 =
         <() as FrameRotationProvider<ICRS, EquatorialMeanJ2000>>::rotation::<Eph, Eop, Nut>(
             jd, ctx,
-- 
2.43.0


From 8270ab75f735f23a77aee8d56ecce62dbd314da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:45 +0000
Subject: [PATCH 10/85] fix: planetary body-fixed frames were rotated about
 mirrored poles

---
 src/coordinates/transform/providers/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/coordinates/transform/providers/mod.rs b/src/coordinates/transform/providers/mod.rs
index 5250fc3..5f00bf3 100644
--- a/src/coordinates/transform/providers/mod.rs
+++ b/src/coordinates/transform/providers/mod.rs
@@ -455,9 +455,10 @@ fn iau_body_fixed_to_icrs(params: &IauRotationParams, jd: JulianDate) -> Rotatio
     let w = params.w(jd).to::<crate::qtty::Radian>();
     let right_angle = crate::qtty::Degrees::new(90.0).to::<crate::qtty::Radian>();
 
-    let z1 = -w;
-    let x = -(right_angle - delta0);
-    let z2 = -(alpha0 + right_angle);
+    // `from_euler_zxz` rotates the vector: W about the pole, then the equator up to the ICRS one.
+    let z1 = w;
+    let x = right_angle - delta0;
+    let z2 = alpha0 + right_angle;
     Rotation3::from_euler_zxz(z1, x, z2)
 }
 
-- 
2.43.0


From d1516121489972877dda191c484dbb2c69c745c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:23 +0000
Subject: [PATCH 11/85] fix: body-centred conversions use the ephemeris of the
 context, not the default one

---
 .../centers/position/to_bodycentric.rs        | 31 ++++++++++++-------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/coordinates/transform/centers/position/to_bodycentric.rs b/src/coordinates/transform/centers/position/to_bodycentric.rs
index 49a1f5b..bbca6ec 100644
--- a/src/coordinates/transform/centers/position/to_bodycentric.rs
+++ b/src/coordinates/transform/centers/position/to_bodycentric.rs
@@ -66,7 +66,7 @@ where
         &self,
         body_params: BodycentricParams,
         jd: JulianDate,
-        _ctx: &AstroContext<Eph, Eop>,
+        ctx: &AstroContext<Eph, Eop>,
     ) -> Position<Bodycentric, F, U> {
         let body_ecliptic_au = body_params.orbit.position_with_mu(jd, body_params.mu);
 
@@ -85,7 +85,8 @@ where
                     body_ecliptic_au.y(),
                     body_ecliptic_au.z(),
                 );
-                let body_geo_ecl: EclipticMeanJ2000<U, Geocentric> = body_helio_ecl.to_center(jd);
+                let body_geo_ecl: EclipticMeanJ2000<U, Geocentric> =
+                    body_helio_ecl.to_center_as::<Eph, Eop, Nut>((), jd, ctx);
                 body_geo_ecl.to_frame()
             }
             OrbitReferenceCenter::Barycentric => {
@@ -94,7 +95,8 @@ where
                     body_ecliptic_au.y(),
                     body_ecliptic_au.z(),
                 );
-                let body_geo_ecl: EclipticMeanJ2000<U, Geocentric> = body_bary_ecl.to_center(jd);
+                let body_geo_ecl: EclipticMeanJ2000<U, Geocentric> =
+                    body_bary_ecl.to_center_as::<Eph, Eop, Nut>((), jd, ctx);
                 body_geo_ecl.to_frame()
             }
         };
@@ -123,7 +125,7 @@ where
         &self,
         body_params: BodycentricParams,
         jd: JulianDate,
-        _ctx: &AstroContext<Eph, Eop>,
+        ctx: &AstroContext<Eph, Eop>,
     ) -> Position<Bodycentric, F, U> {
         let body_ecliptic_au = body_params.orbit.position_with_mu(jd, body_params.mu);
 
@@ -142,7 +144,8 @@ where
                     body_ecliptic_au.y(),
                     body_ecliptic_au.z(),
                 );
-                let body_helio_ecl: EclipticMeanJ2000<U, Heliocentric> = body_geo_ecl.to_center(jd);
+                let body_helio_ecl: EclipticMeanJ2000<U, Heliocentric> =
+                    body_geo_ecl.to_center_as::<Eph, Eop, Nut>((), jd, ctx);
                 body_helio_ecl.to_frame()
             }
             OrbitReferenceCenter::Barycentric => {
@@ -152,7 +155,7 @@ where
                     body_ecliptic_au.z(),
                 );
                 let body_helio_ecl: EclipticMeanJ2000<U, Heliocentric> =
-                    body_bary_ecl.to_center(jd);
+                    body_bary_ecl.to_center_as::<Eph, Eop, Nut>((), jd, ctx);
                 body_helio_ecl.to_frame()
             }
         };
@@ -181,7 +184,7 @@ where
         &self,
         body_params: BodycentricParams,
         jd: JulianDate,
-        _ctx: &AstroContext<Eph, Eop>,
+        ctx: &AstroContext<Eph, Eop>,
     ) -> Position<Bodycentric, F, U> {
         let body_ecliptic_au = body_params.orbit.position_with_mu(jd, body_params.mu);
 
@@ -200,7 +203,8 @@ where
                     body_ecliptic_au.y(),
                     body_ecliptic_au.z(),
                 );
-                let body_bary_ecl: EclipticMeanJ2000<U, Barycentric> = body_helio_ecl.to_center(jd);
+                let body_bary_ecl: EclipticMeanJ2000<U, Barycentric> =
+                    body_helio_ecl.to_center_as::<Eph, Eop, Nut>((), jd, ctx);
                 body_bary_ecl.to_frame()
             }
             OrbitReferenceCenter::Geocentric => {
@@ -209,7 +213,8 @@ where
                     body_ecliptic_au.y(),
                     body_ecliptic_au.z(),
                 );
-                let body_bary_ecl: EclipticMeanJ2000<U, Barycentric> = body_geo_ecl.to_center(jd);
+                let body_bary_ecl: EclipticMeanJ2000<U, Barycentric> =
+                    body_geo_ecl.to_center_as::<Eph, Eop, Nut>((), jd, ctx);
                 body_bary_ecl.to_frame()
             }
         };
@@ -238,7 +243,7 @@ where
         &self,
         _params: (),
         jd: JulianDate,
-        _ctx: &AstroContext<Eph, Eop>,
+        ctx: &AstroContext<Eph, Eop>,
     ) -> Position<Geocentric, F, U> {
         let body_params = *self.center_params();
         let body_ecliptic_au = body_params.orbit.position_with_mu(jd, body_params.mu);
@@ -258,7 +263,8 @@ where
                     body_ecliptic_au.y(),
                     body_ecliptic_au.z(),
                 );
-                let body_geo_ecl: EclipticMeanJ2000<U, Geocentric> = body_helio_ecl.to_center(jd);
+                let body_geo_ecl: EclipticMeanJ2000<U, Geocentric> =
+                    body_helio_ecl.to_center_as::<Eph, Eop, Nut>((), jd, ctx);
                 body_geo_ecl.to_frame()
             }
             OrbitReferenceCenter::Barycentric => {
@@ -267,7 +273,8 @@ where
                     body_ecliptic_au.y(),
                     body_ecliptic_au.z(),
                 );
-                let body_geo_ecl: EclipticMeanJ2000<U, Geocentric> = body_bary_ecl.to_center(jd);
+                let body_geo_ecl: EclipticMeanJ2000<U, Geocentric> =
+                    body_bary_ecl.to_center_as::<Eph, Eop, Nut>((), jd, ctx);
                 body_geo_ecl.to_frame()
             }
         };
-- 
2.43.0


From 5eefba9aba8dee46d54e795b5ddb10579c367b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:11 +0000
Subject: [PATCH 12/85] fix: the topocentric observer state takes the Earth's
 velocity from the context's ephemeris

---
 src/coordinates/observation/observer_state.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coordinates/observation/observer_state.rs b/src/coordinates/observation/observer_state.rs
index 000c8c6..4493818 100644
--- a/src/coordinates/observation/observer_state.rs
+++ b/src/coordinates/observation/observer_state.rs
@@ -123,7 +123,7 @@ impl ObserverState {
     }
 
     /// Context-aware topocentric observer state.
-    pub fn topocentric_with_ctx<Eph, Eop: EopProvider, Nut: NutationModel>(
+    pub fn topocentric_with_ctx<Eph: Ephemeris, Eop: EopProvider, Nut: NutationModel>(
         site: &Geodetic<ECEF>,
         jd: JulianDate,
         ctx: &AstroContext<Eph, Eop>,
@@ -132,7 +132,7 @@ impl ObserverState {
         use crate::qtty::{unit, Meter, Seconds};
 
         // Annual (orbital) component: barycentric Earth velocity.
-        let vel_ecl = DefaultEphemeris::earth_barycentric_velocity(jd);
+        let vel_ecl = Eph::earth_barycentric_velocity(jd);
 
         // Transform to equatorial frame
         let mut velocity: Velocity<EquatorialMeanJ2000, AuPerDay> = vel_ecl.to_frame();
-- 
2.43.0


From a25d98fad0e2168cd68f16c5e50cfeb119335cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:16 +0000
Subject: [PATCH 13/85] fix: mean-of-date to horizontal mirrored the azimuth
 (North-clockwise is atan2(y, x) in the Horizontal frame)

---
 src/coordinates/transform/frames/to_horizontal.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/coordinates/transform/frames/to_horizontal.rs b/src/coordinates/transform/frames/to_horizontal.rs
index 9e40394..1a17dc6 100644
--- a/src/coordinates/transform/frames/to_horizontal.rs
+++ b/src/coordinates/transform/frames/to_horizontal.rs
@@ -165,10 +165,10 @@ impl<U: LengthUnit> Transform<cartesian::Position<Topocentric, Horizontal, U>>
             equatorial_to_horizontal_angles(ra.to::<Deg>(), dec.to::<Deg>(), site, &site_trig, jd);
 
         // Convert back to Cartesian in horizontal frame
-        // In horizontal: x = North, y = West, z = Zenith
+        // In horizontal: x = North, y = East, z = Zenith
         // Trig functions return f64, multiply by Quantity<U> to get Quantity<U>
         let new_x = r * alt.cos() * az.cos();
-        let new_y = -r * alt.cos() * az.sin(); // negative for East-positive azimuth
+        let new_y = r * alt.cos() * az.sin(); // azimuth is North-clockwise, as in `Horizontal`
         let new_z = r * alt.sin();
 
         cartesian::Position::from_array(*site, [new_x, new_y, new_z])
@@ -198,7 +198,7 @@ impl<U: LengthUnit> Transform<cartesian::Position<Topocentric, EquatorialMeanOfD
             Quantity::<Radian>::new(0.0)
         };
         // atan2 on Quantity<U> values - extract raw values for atan2
-        let az: Radians = Quantity::<Radian>::new((-self.y() / r).atan2(self.x() / r));
+        let az: Radians = Quantity::<Radian>::new((self.y() / r).atan2(self.x() / r));
 
         let site_trig = SiteTrig::from_site(site);
         let (ra, dec) = horizontal_to_equatorial_angles(alt, az, site, &site_trig, jd);
-- 
2.43.0


From 6998657a26eb0e893056b8b0683870e304dcf730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:10 +0000
Subject: [PATCH 14/85] fix: horizontal transforms at the geographic poles and
 at the zenith (division by a vanishing cosine, arcsine of 1+ulp)

---
 src/coordinates/transform/frames/to_horizontal.rs | 13 +++++++------
 src/event/horizontal.rs                           |  6 +++---
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/coordinates/transform/frames/to_horizontal.rs b/src/coordinates/transform/frames/to_horizontal.rs
index 1a17dc6..5ba51d9 100644
--- a/src/coordinates/transform/frames/to_horizontal.rs
+++ b/src/coordinates/transform/frames/to_horizontal.rs
@@ -85,7 +85,9 @@ fn equatorial_to_horizontal_angles(
     let cos_ha = ha.cos();
 
     // Use precomputed sin/cos of latitude
-    let alt_val = (sin_dec * site_trig.sin_lat + cos_dec * site_trig.cos_lat * cos_ha).asin();
+    let alt_val = (sin_dec * site_trig.sin_lat + cos_dec * site_trig.cos_lat * cos_ha)
+        .clamp(-1.0, 1.0)
+        .asin();
     let az_val = (-cos_dec * ha.sin())
         .atan2(sin_dec * site_trig.cos_lat - cos_dec * cos_ha * site_trig.sin_lat);
 
@@ -118,13 +120,12 @@ fn horizontal_to_equatorial_angles(
 
     // Calculate declination
     let sin_dec = sin_alt * site_trig.sin_lat + cos_alt * site_trig.cos_lat * az.cos();
-    let dec_val = sin_dec.asin();
+    let dec_val = sin_dec.clamp(-1.0, 1.0).asin();
 
     // Calculate hour angle
-    let cos_ha =
-        (sin_alt - site_trig.sin_lat * dec_val.sin()) / (site_trig.cos_lat * dec_val.cos());
-    let sin_ha = -cos_alt * az.sin() / dec_val.cos();
-    let ha_val = sin_ha.atan2(cos_ha);
+    // (no division by the cosines of latitude and declination: they vanish at the poles)
+    let ha_val = (-cos_alt * az.sin())
+        .atan2(sin_alt * site_trig.cos_lat - cos_alt * az.cos() * site_trig.sin_lat);
 
     // Convert hour angle to right ascension
     let gmst = gmst_from_tt(jd);
diff --git a/src/event/horizontal.rs b/src/event/horizontal.rs
index 702de3b..5646ec1 100644
--- a/src/event/horizontal.rs
+++ b/src/event/horizontal.rs
@@ -207,7 +207,7 @@ where
 
     // Altitude: sin(alt) = sin(dec)·sin(lat) + cos(dec)·cos(lat)·cos(HA)
     let sin_alt = dec_rad.sin() * lat.sin() + dec_rad.cos() * lat.cos() * ha.cos();
-    let alt = Radians::new(sin_alt.asin()).to::<Degree>();
+    let alt = Radians::new(sin_alt.clamp(-1.0, 1.0).asin()).to::<Degree>();
 
     // Azimuth: tan(az) = -sin(HA) / (cos(lat)·tan(dec) - sin(lat)·cos(HA))
     let az_rad = (-dec_rad.cos() * ha.sin())
@@ -273,7 +273,7 @@ pub fn star_horizontal_with_policy(
 
     // True-of-date RA/Dec
     let ra_tod = Radians::new(y_t.atan2(x_t));
-    let dec_tod = Radians::new(z_t.asin());
+    let dec_tod = Radians::new(z_t.clamp(-1.0, 1.0).asin());
 
     // True-of-date RA/Dec requires apparent sidereal time (GAST).
     let ctx: AstroContext = AstroContext::default();
@@ -286,7 +286,7 @@ pub fn star_horizontal_with_policy(
     // Equatorial → horizontal
     let lat = site.lat.to::<Radian>();
     let sin_alt = dec_tod.sin() * lat.sin() + dec_tod.cos() * lat.cos() * ha.cos();
-    let alt = Radians::new(sin_alt.asin()).to::<Degree>();
+    let alt = Radians::new(sin_alt.clamp(-1.0, 1.0).asin()).to::<Degree>();
 
     let az_rad = (-dec_tod.cos() * ha.sin())
         .atan2(dec_tod.sin() * lat.cos() - dec_tod.cos() * ha.cos() * lat.sin());
-- 
2.43.0


From 3f848f506a8301a90522b7954bf6d646eb9d484d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:45 +0000
Subject: [PATCH 15/85] fix: threshold crossings that fall exactly on a scan
 node are found

---
 src/event/search/intervals.rs | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/event/search/intervals.rs b/src/event/search/intervals.rs
index d0881ca..d9928d9 100644
--- a/src/event/search/intervals.rs
+++ b/src/event/search/intervals.rs
@@ -63,7 +63,20 @@ pub struct LabeledCrossing {
 
 fn sort_and_dedup_labeled_crossings(crossings: &mut Vec<LabeledCrossing>) {
     crossings.sort_by(|a, b| a.t.partial_cmp(&b.t).unwrap());
-    crossings.dedup_by(|a, b| (a.t.raw() - b.t.raw()).abs() < DEDUPE_EPS);
+    // A down/up pair at one instant is a touch from above at a scan node, not a
+    // state change: both drop out.
+    let mut kept: Vec<LabeledCrossing> = Vec::with_capacity(crossings.len());
+    for c in crossings.drain(..) {
+        match kept.last() {
+            Some(last) if (c.t.raw() - last.t.raw()).abs() < DEDUPE_EPS => {
+                if last.direction != c.direction {
+                    kept.pop();
+                }
+            }
+            _ => kept.push(c),
+        }
+    }
+    *crossings = kept;
 }
 
 // ---------------------------------------------------------------------------
@@ -103,7 +116,9 @@ where
         };
         let next_v = g(next_t);
 
-        if (prev < zero && next_v > zero) || (prev > zero && next_v < zero) {
+        // `above` means strictly positive everywhere in this module, so a root
+        // that falls exactly on a scan node still separates the two states.
+        if (prev > zero) != (next_v > zero) {
             if let Some(root_t) =
                 root_finding::brent_with_values(Interval::new(t, next_t), prev, next_v, g)
             {
@@ -159,12 +174,10 @@ where
         };
         let next_v = g(next_t);
 
-        let direction = if prev < zero && next_v > zero {
-            Some(1)
-        } else if prev > zero && next_v < zero {
-            Some(-1)
-        } else {
-            None
+        let direction = match (prev > zero, next_v > zero) {
+            (false, true) => Some(1),
+            (true, false) => Some(-1),
+            _ => None,
         };
 
         if let Some(direction) = direction {
-- 
2.43.0


From 191e9f5277ecbdb37332d5402e04c13a81dd0d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:45 +0000
Subject: [PATCH 16/85] fix: azimuth_crossings reported the opposite bearing as
 well

---
 src/event/azimuth/events.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/event/azimuth/events.rs b/src/event/azimuth/events.rs
index 1ed108b..2e93408 100644
--- a/src/event/azimuth/events.rs
+++ b/src/event/azimuth/events.rs
@@ -66,10 +66,10 @@ fn scan_step_for<T: AzimuthProvider>(target: &T, _opts: &SearchOpts) -> Days {
 ///
 /// This sidesteps the 0°/360° discontinuity of the raw azimuth: because sine
 /// has period 2π, `sin(az + 2π − b) = sin(az − b)`, the function is smooth
-/// and sign-changes exactly where `az(t) = bearing  (mod 360°)`.
+/// and sign-changes exactly where `az(t) = bearing  (mod 180°)`.
 ///
-/// The zero-crossings of this function correspond exactly to crossing events
-/// for the given bearing.
+/// The zero-crossings with `cos(az(t) − bearing) > 0` are the crossing events
+/// for the given bearing; the others belong to the opposite bearing.
 fn make_az_bearing_sin_fn<'a, T: AzimuthProvider>(
     target: &'a T,
     site: &'a Geodetic<ECEF>,
@@ -196,6 +196,16 @@ pub fn azimuth_crossings<T: AzimuthProvider>(
     let step = scan_step_for(target, &opts);
 
     let mut raw = intervals::find_crossings(window, step, &f, Radians::new(0.0));
+    // The sine also vanishes at the opposite bearing: keep the roots where the
+    // body really is at `bearing`.
+    raw.retain(|&t| {
+        let az = target.azimuth_at_with_policy(
+            observer,
+            t,
+            crate::astro::apparent::CorrectionPolicy::APPARENT,
+        );
+        (az - bearing_rad).cos() > 0.0
+    });
     let labeled = intervals::label_crossings(&mut raw, &f, Radians::new(0.0));
 
     labeled
-- 
2.43.0


From e53eadfa0d19a81e8182e05885c3323343339b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:45 +0000
Subject: [PATCH 17/85] fix: Star azimuth ignored the correction policy

---
 src/event/azimuth/provider.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/event/azimuth/provider.rs b/src/event/azimuth/provider.rs
index fd74138..2f52b8b 100644
--- a/src/event/azimuth/provider.rs
+++ b/src/event/azimuth/provider.rs
@@ -286,6 +286,16 @@ impl AzimuthProvider for Star<'_> {
         dir.azimuth_at(observer, mjd)
     }
 
+    fn azimuth_at_with_policy(
+        &self,
+        observer: &Geodetic<ECEF>,
+        mjd: ModifiedJulianDate,
+        policy: crate::astro::apparent::CorrectionPolicy,
+    ) -> Radians {
+        let dir = direction::ICRS::from(self);
+        dir.azimuth_at_with_policy(observer, mjd, policy)
+    }
+
     fn azimuth_periods(&self, query: &AzimuthQuery) -> Vec<Interval<ModifiedJulianDate>> {
         let dir = direction::ICRS::from(self);
         dir.azimuth_periods(query)
-- 
2.43.0


From 7d0b3e553b64e3ebea97031b169587bfd3f84e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:20 +0000
Subject: [PATCH 18/85] fix: azimuth ranges narrower than the sweep of one scan
 step were missed

---
 src/event/azimuth/events.rs   | 149 ++++++++++++++++------------------
 src/event/search/crossings.rs |  10 +--
 2 files changed, 75 insertions(+), 84 deletions(-)

diff --git a/src/event/azimuth/events.rs b/src/event/azimuth/events.rs
index 2e93408..8cd544e 100644
--- a/src/event/azimuth/events.rs
+++ b/src/event/azimuth/events.rs
@@ -30,9 +30,9 @@
 //! every wrap-around.  This module uses two complementary strategies:
 //!
 //! * **Trigonometric reformulation** for crossings and range queries:
-//!   `sin(az(t) − b)` and `cos(az(t) − midpoint)` are continuous even
-//!   through the 0°/360° boundary, because cosine/sine are 2π-periodic.
-//!   These are passed directly to `math_core` without any unwrapping.
+//!   `sin(az(t) − b)` is continuous even through the 0°/360° boundary,
+//!   because the sine is 2π-periodic. It is passed directly to `math_core`
+//!   without any unwrapping.
 //!
 //! * **Stateful unwrapping closure** for extrema: a `Cell`-based closure
 //!   tracks the previous raw sample and accumulates ±2π offsets, producing
@@ -83,23 +83,22 @@ fn make_az_bearing_sin_fn<'a, T: AzimuthProvider>(
     }
 }
 
-/// Build a continuous function `cos(az(t) − mid)` for range queries.
-///
-/// The body is inside the arc `[min_az, max_az]` when
-/// `cos(az − mid) ≥ cos(halfwidth)`, i.e. when this function is ≥ 0 after
-/// subtracting `cos(halfwidth)`.  This avoids the 0°/360° wrap entirely.
-fn make_az_cosine_fn<'a, T: AzimuthProvider>(
-    target: &'a T,
-    site: &'a Geodetic<ECEF>,
-    mid: Radians,
-    cos_hw: f64,
+/// Directed crossings of `bearing`: direction +1 when the azimuth increases
+/// (clockwise), −1 when it decreases.
+fn bearing_crossings<T: AzimuthProvider>(
+    target: &T,
+    site: &Geodetic<ECEF>,
+    window: Interval<ModifiedJulianDate>,
+    bearing: Radians,
+    step: Days,
     policy: crate::astro::apparent::CorrectionPolicy,
-) -> impl Fn(ModifiedJulianDate) -> Radians + 'a {
-    let site = *site;
-    move |t: ModifiedJulianDate| {
-        let az = target.azimuth_at_with_policy(&site, t, policy);
-        Radians::new((az - mid).cos() - cos_hw)
-    }
+) -> Vec<intervals::LabeledCrossing> {
+    let f = make_az_bearing_sin_fn(target, site, bearing, policy);
+    let mut raw = intervals::find_crossings(window, step, &f, Radians::new(0.0));
+    // The sine also vanishes at the opposite bearing: keep the roots where the
+    // body really is at `bearing`.
+    raw.retain(|&t| (target.azimuth_at_with_policy(site, t, policy) - bearing).cos() > 0.0);
+    intervals::label_crossings(&mut raw, &f, Radians::new(0.0))
 }
 
 /// Build an **unwrapped** (continuous) azimuth closure using a `Cell`-based
@@ -186,28 +185,14 @@ pub fn azimuth_crossings<T: AzimuthProvider>(
     bearing: Degrees,
     opts: SearchOpts,
 ) -> Vec<AzimuthCrossingEvent> {
-    let bearing_rad = bearing.to::<Radian>();
-    let f = make_az_bearing_sin_fn(
+    let labeled = bearing_crossings(
         target,
         observer,
-        bearing_rad,
+        window,
+        bearing.to::<Radian>(),
+        scan_step_for(target, &opts),
         crate::astro::apparent::CorrectionPolicy::APPARENT,
     );
-    let step = scan_step_for(target, &opts);
-
-    let mut raw = intervals::find_crossings(window, step, &f, Radians::new(0.0));
-    // The sine also vanishes at the opposite bearing: keep the roots where the
-    // body really is at `bearing`.
-    raw.retain(|&t| {
-        let az = target.azimuth_at_with_policy(
-            observer,
-            t,
-            crate::astro::apparent::CorrectionPolicy::APPARENT,
-        );
-        (az - bearing_rad).cos() > 0.0
-    });
-    let labeled = intervals::label_crossings(&mut raw, &f, Radians::new(0.0));
-
     labeled
         .iter()
         .map(|lc| AzimuthCrossingEvent {
@@ -286,55 +271,65 @@ pub fn azimuth_extrema<T: AzimuthProvider>(
 /// This function is `pub(crate)` and is the single implementation backing
 /// all [`AzimuthProvider::azimuth_periods`] impls.
 ///
-/// ## Non-wrap range (`min ≤ max`)
-///
-/// Uses the midpoint-cosine approach:
-/// `f(t) = cos(az(t) − mid) − cos(halfwidth) ≥ 0` precisely when
-/// `az ∈ [min, max]`.  This function is continuous even through the
-/// 0°/360° boundary.
-///
-/// ## Wrap-around range (`min > max`)
-///
-/// The arc `[min, 360°) ∪ [0°, max]` equals the complement of the arc
-/// `[max, min]` (non-wrapping).  We compute the non-wrapping complement and
-/// take its complement within the window.
+/// The band is the arc swept clockwise from `min_azimuth` to `max_azimuth`
+/// (through North when `min > max`). It is entered and left only through its
+/// two bounding bearings, so the periods follow from the state at the window
+/// start and the directed crossings of those bearings. A band narrower than
+/// the sweep of one scan step is therefore not skipped.
 pub(crate) fn azimuth_range_periods<T: AzimuthProvider>(
     target: &T,
     query: &AzimuthQuery,
 ) -> Vec<Interval<ModifiedJulianDate>> {
-    let step = scan_step_for(target, &query.opts);
-
-    if query.min_azimuth <= query.max_azimuth {
-        // ── Non-wrap arc [min, max] ────────────────────────────────────────
-        let mid = ((query.min_azimuth + query.max_azimuth) * 0.5).to::<Radian>();
-        let half_width = ((query.max_azimuth - query.min_azimuth) * 0.5).to::<Radian>();
-        let cos_hw = half_width.cos();
-
-        let f = make_az_cosine_fn(
-            target,
-            &query.observer,
-            mid,
-            cos_hw,
-            query.correction_policy,
-        );
-        intervals::above_threshold_periods(query.window, step, &f, Radians::new(0.0))
-    } else {
-        // ── Wrap-around arc [min, 360°) ∪ [0°, max] ──────────────────────
-        // Complement arc is [max, min] (non-wrapping).
-        let mid = ((query.max_azimuth + query.min_azimuth) * 0.5).to::<Radian>();
-        let half_width = ((query.min_azimuth - query.max_azimuth) * 0.5).to::<Radian>();
-        let cos_hw = half_width.cos();
+    let span = query.max_azimuth - query.min_azimuth;
+    if span >= Degrees::new(360.0) {
+        return vec![query.window];
+    }
+    let width = span.to::<Radian>().wrap_pos();
+    if width <= Radians::new(0.0) {
+        return Vec::new();
+    }
 
-        let f = make_az_cosine_fn(
+    let step = scan_step_for(target, &query.opts);
+    let crossings = |bearing: Degrees| {
+        bearing_crossings(
             target,
             &query.observer,
-            mid,
-            cos_hw,
+            query.window,
+            bearing.to::<Radian>(),
+            step,
             query.correction_policy,
-        );
-        let outside = intervals::above_threshold_periods(query.window, step, &f, Radians::new(0.0));
-        complement_within(query.window, &outside)
+        )
+    };
+    // (instant, whether the body is inside the band afterwards)
+    let mut changes: Vec<(ModifiedJulianDate, bool)> = crossings(query.min_azimuth)
+        .iter()
+        .map(|c| (c.t, c.direction > 0))
+        .chain(
+            crossings(query.max_azimuth)
+                .iter()
+                .map(|c| (c.t, c.direction < 0)),
+        )
+        .collect();
+    changes.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
+
+    let az_start =
+        target.azimuth_at_with_policy(&query.observer, query.window.start, query.correction_policy);
+    let mut inside = (az_start - query.min_azimuth.to::<Radian>()).wrap_pos() < width;
+    let mut since = query.window.start;
+    let mut periods = Vec::new();
+    for (t, inside_after) in changes {
+        if inside && !inside_after && since < t {
+            periods.push(Interval::new(since, t));
+        }
+        if !inside && inside_after {
+            since = t;
+        }
+        inside = inside_after;
+    }
+    if inside && since < query.window.end {
+        periods.push(Interval::new(since, query.window.end));
     }
+    periods
 }
 
 // ---------------------------------------------------------------------------
diff --git a/src/event/search/crossings.rs b/src/event/search/crossings.rs
index 489fd8b..0f3301c 100644
--- a/src/event/search/crossings.rs
+++ b/src/event/search/crossings.rs
@@ -234,10 +234,8 @@ where
     }
 
     // The polynomial root finder may lose roots; its own sign changes tell.
-    let sign_changes = definite_sign_changes(
-        |x| poly.evaluate(x),
-        search.opts.chebyshev.max_tail_norm,
-    );
+    let sign_changes =
+        definite_sign_changes(|x| poly.evaluate(x), search.opts.chebyshev.max_tail_norm);
     if sign_changes > roots.len() {
         fallback_segment(search, segment);
         return;
@@ -381,9 +379,7 @@ where
 
     let residual = (eval_signal(signal, refined, diagnostics) - threshold_sin).abs();
     // A refined root is already within the residual or the time tolerance.
-    if !residual.is_finite()
-        || (!opts.chebyshev.refine && residual > opts.chebyshev.max_residual)
-    {
+    if !residual.is_finite() || (!opts.chebyshev.refine && residual > opts.chebyshev.max_residual) {
         return None;
     }
 
-- 
2.43.0


From ec33f072bf5a2379d40a4a893e0bb9dea95b01ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:53 +0000
Subject: [PATCH 19/85] fix: apparent radii of near occulting bodies used the
 tangent instead of the sine

---
 src/mission/geometry/occultation.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mission/geometry/occultation.rs b/src/mission/geometry/occultation.rs
index 980716e..92e5799 100644
--- a/src/mission/geometry/occultation.rs
+++ b/src/mission/geometry/occultation.rs
@@ -72,8 +72,8 @@ where
     if no > nt {
         return 0.0;
     }
-    let app_t = (tr / nt).atan(); // angular radius of target
-    let app_o = (or_ / no).atan(); // angular radius of occulter
+    let app_t = (tr / nt).min(1.0).asin(); // angular radius of target
+    let app_o = (or_ / no).min(1.0).asin(); // angular radius of occulter
     let cos_sep = d_t.dot(&d_o).value() / (nt * no);
     let sep = cos_sep.clamp(-1.0, 1.0).acos();
     // Apparent target area
-- 
2.43.0


From 1334e62b3ada997e8f597eb223860d87abbf9704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 20/85] fix: a target beyond the limb but nearer than the
 occulter's centre can be hidden

---
 src/mission/geometry/occultation.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mission/geometry/occultation.rs b/src/mission/geometry/occultation.rs
index 92e5799..95d69f6 100644
--- a/src/mission/geometry/occultation.rs
+++ b/src/mission/geometry/occultation.rs
@@ -68,8 +68,9 @@ where
     if nt == 0.0 || no == 0.0 {
         return 0.0;
     }
-    // A body farther away than the target cannot hide it.
-    if no > nt {
+    // A target nearer than the occulter's limb (the tangent points) is in
+    // front of the occulter and cannot be hidden by it.
+    if nt * nt < no * no - or_ * or_ {
         return 0.0;
     }
     let app_t = (tr / nt).min(1.0).asin(); // angular radius of target
-- 
2.43.0


From b66f2d1e1a8e462b40a52ec0d02652235db8a744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:39 +0000
Subject: [PATCH 21/85] fix: look elevation was NaN when rounding put the sine
 just above one

---
 src/mission/geometry/az_el_range.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mission/geometry/az_el_range.rs b/src/mission/geometry/az_el_range.rs
index cc5d965..93b727c 100644
--- a/src/mission/geometry/az_el_range.rs
+++ b/src/mission/geometry/az_el_range.rs
@@ -91,7 +91,7 @@ where
     if az < 0.0 {
         az += TAU;
     }
-    let el = u_comp.asin();
+    let el = u_comp.clamp(-1.0, 1.0).asin();
 
     // Range rate = (v_target - v_observer) · LOS direction.
     let rel_v = target_vel - observer_vel;
-- 
2.43.0


From bf106657d6cc167d909401ec548e1840720de808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:17 +0000
Subject: [PATCH 22/85] fix: the TLE propagator's anomaly solver failed near
 perigee of very eccentric orbits

---
 src/astro/sgp4/propagator.rs | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/astro/sgp4/propagator.rs b/src/astro/sgp4/propagator.rs
index 4e29125..a744326 100644
--- a/src/astro/sgp4/propagator.rs
+++ b/src/astro/sgp4/propagator.rs
@@ -400,20 +400,33 @@ fn semi_major_axis_km(mu_km3_s2: f64, n_rad_s: f64) -> f64 {
 }
 
 fn solve_kepler(mean_anomaly: f64, eccentricity: f64) -> Result<f64, Sgp4Error> {
+    // The root of E - e sin E = M lies in [M - e, M + e]; Newton steps that
+    // leave the bracket (near perigee of very eccentric orbits) are replaced
+    // by bisection, so the iteration always converges.
+    let mut lo = mean_anomaly - eccentricity;
+    let mut hi = mean_anomaly + eccentricity;
     let mut e_anom = if eccentricity < 0.8 {
         mean_anomaly
     } else {
-        core::f64::consts::PI
+        core::f64::consts::PI.max(lo).min(hi)
     };
-    for _ in 0..32 {
+    for _ in 0..128 {
         let f = e_anom - eccentricity * e_anom.sin() - mean_anomaly;
         let fp = 1.0 - eccentricity * e_anom.cos();
-        if fp.abs() < 1.0e-14 {
-            break;
+        if f > 0.0 {
+            hi = e_anom;
+        } else {
+            lo = e_anom;
         }
-        let step = f / fp;
-        e_anom -= step;
-        if step.abs() < 1.0e-13 {
+        let newton = e_anom - f / fp;
+        let next = if newton >= lo && newton <= hi {
+            newton
+        } else {
+            0.5 * (lo + hi)
+        };
+        let step = next - e_anom;
+        e_anom = next;
+        if step.abs() < 1.0e-13 || hi - lo < 1.0e-13 {
             return Ok(e_anom);
         }
     }
-- 
2.43.0


From abc55b45600aaf0db13038b00b912d9d320f3db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:04 +0000
Subject: [PATCH 23/85] fix: the TLE propagator took the printed n-dot/2 and
 n-ddot/6 as the full derivatives

---
 src/astro/sgp4/propagator.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/astro/sgp4/propagator.rs b/src/astro/sgp4/propagator.rs
index a744326..2b1ea21 100644
--- a/src/astro/sgp4/propagator.rs
+++ b/src/astro/sgp4/propagator.rs
@@ -353,8 +353,8 @@ fn propagate_native(
     let argp = elements.argument_of_perigee_rad + argp_dot * dt_seconds;
     let mean_motion_phase = TWO_PI
         * (elements.mean_motion_rev_per_day * dt_days
-            + 0.5 * elements.mean_motion_dot_rev_per_day2 * dt_days * dt_days
-            + elements.mean_motion_ddot_rev_per_day3 * dt_days * dt_days * dt_days / 6.0);
+            + elements.mean_motion_dot_rev_per_day2 * dt_days * dt_days
+            + elements.mean_motion_ddot_rev_per_day3 * dt_days * dt_days * dt_days);
     let m =
         normalize_radians(elements.mean_anomaly_rad + mean_motion_phase + mean_j2_dot * dt_seconds);
     let eccentric_anomaly = solve_kepler(m, e)?;
@@ -387,10 +387,11 @@ fn propagate_native(
     Ok((position, velocity))
 }
 
+// TLE derivative fields are printed as n-dot / 2 and n-double-dot / 6.
 fn mean_motion_rad_s(elements: &NativeElements, dt_days: f64) -> f64 {
     let rev_per_day = elements.mean_motion_rev_per_day
-        + elements.mean_motion_dot_rev_per_day2 * dt_days
-        + 0.5 * elements.mean_motion_ddot_rev_per_day3 * dt_days * dt_days
+        + 2.0 * elements.mean_motion_dot_rev_per_day2 * dt_days
+        + 3.0 * elements.mean_motion_ddot_rev_per_day3 * dt_days * dt_days
         - 1.0e-5 * elements.bstar * dt_days.abs();
     rev_per_day * TWO_PI / SECONDS_PER_DAY
 }
-- 
2.43.0


From cdf58d12165ef2b3b7be1a942dc67567f473539d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:48 +0000
Subject: [PATCH 24/85] fix: CPR positions near the poles, at 87 degrees and
 across the antimeridian; refuse latitudes beyond a pole

---
 src/formats/adsb/cpr.rs | 52 ++++++++++++++++++++++++++++++-----------
 1 file changed, 39 insertions(+), 13 deletions(-)

diff --git a/src/formats/adsb/cpr.rs b/src/formats/adsb/cpr.rs
index 0b051bf..cced064 100644
--- a/src/formats/adsb/cpr.rs
+++ b/src/formats/adsb/cpr.rs
@@ -42,8 +42,9 @@ fn dlat(odd: bool) -> f64 {
 ///
 /// Based on DO-260B eq. 2-15 / Sun 2021 eq. 4.13.
 fn nl(lat: f64) -> f64 {
+    // The closed form degenerates at 87°, the last latitude with two zones.
     if lat.abs() >= 87.0 {
-        return 1.0;
+        return if lat.abs() > 87.0 { 1.0 } else { 2.0 };
     }
     let cos_lat = lat.to_radians().cos();
     let numer = 1.0 - (std::f64::consts::PI / (2.0 * NZ)).cos();
@@ -53,6 +54,32 @@ fn nl(lat: f64) -> f64 {
     n.clamp(1.0, 59.0)
 }
 
+/// Map a decoded latitude from `[0°, 360°)` to `[−90°, 90°]`.
+///
+/// Latitudes beyond a pole do not belong to any encoded position.
+fn signed_latitude(lat: f64) -> Result<f64, FormatError> {
+    let lat = if lat > 180.0 { lat - 360.0 } else { lat };
+    if lat.abs() > 90.0 + 1e-9 {
+        return Err(FormatError::located(
+            "ADS-B DO-260B §2.2.3.2.6",
+            FileLocation::default(),
+            format!("CPR fields decode to latitude {lat}° beyond the pole"),
+        ));
+    }
+    Ok(lat.clamp(-90.0, 90.0))
+}
+
+/// Map a decoded longitude to `[−180°, 180°)`.
+fn signed_longitude(lon: f64) -> f64 {
+    if lon >= 180.0 {
+        lon - 360.0
+    } else if lon < -180.0 {
+        lon + 360.0
+    } else {
+        lon
+    }
+}
+
 /// Decode a globally-unambiguous geodetic position from an even and odd
 /// CPR frame pair.
 ///
@@ -72,7 +99,8 @@ fn nl(lat: f64) -> f64 {
 /// # Errors
 ///
 /// [`FormatError`] when the even/odd pair is inconsistent (NL mismatch —
-/// meaning the pair is too old and straddles a latitude zone boundary).
+/// meaning the pair is too old and straddles a latitude zone boundary) or
+/// decodes to a latitude beyond a pole.
 ///
 /// # Examples
 ///
@@ -99,8 +127,8 @@ pub fn decode_globally(
     let lat_e = dlat0 * (j.rem_euclid(60.0) + lat0 as f64 / 131_072.0);
     let lat_o = dlat1 * (j.rem_euclid(59.0) + lat1 as f64 / 131_072.0);
 
-    let lat_e = if lat_e >= 270.0 { lat_e - 360.0 } else { lat_e };
-    let lat_o = if lat_o >= 270.0 { lat_o - 360.0 } else { lat_o };
+    let lat_e = signed_latitude(lat_e)?;
+    let lat_o = signed_latitude(lat_o)?;
 
     // NL check: both frames must be in the same latitude band
     if (nl(lat_e) - nl(lat_o)).abs() > 0.5 {
@@ -115,15 +143,13 @@ pub fn decode_globally(
     let nl_lat = nl(lat);
 
     let (lon, lon_ref) = if odd_is_latest {
-        let dlon = if nl_lat <= 1.0 {
-            360.0
-        } else {
-            360.0 / (nl_lat - 1.0)
-        };
+        // Odd frames use NL − 1 zones, but never fewer than one.
+        let n_lon = (nl_lat - 1.0).max(1.0);
+        let dlon = 360.0 / n_lon;
         let m = (lon0 as f64 * (nl_lat - 1.0) / 131_072.0 - lon1 as f64 * nl_lat / 131_072.0 + 0.5)
             .floor();
         (
-            dlon * (m.rem_euclid(nl_lat - 1.0) + lon1 as f64 / 131_072.0),
+            dlon * (m.rem_euclid(n_lon) + lon1 as f64 / 131_072.0),
             lat_o,
         )
     } else {
@@ -138,7 +164,7 @@ pub fn decode_globally(
 
     let _ = lon_ref; // used implicitly in lat selection above
 
-    let lon = if lon >= 180.0 { lon - 360.0 } else { lon };
+    let lon = signed_longitude(lon);
 
     Ok((Degrees::new(lat), Degrees::new(lon)))
 }
@@ -177,7 +203,7 @@ pub fn decode_locally(
     let d_lat = dlat(odd);
     let j = (ref_lat / d_lat - cpr_lat as f64 / 131_072.0 + 0.5).floor();
     let lat = d_lat * (j + cpr_lat as f64 / 131_072.0);
-    let lat = if lat >= 270.0 { lat - 360.0 } else { lat };
+    let lat = signed_latitude(lat)?;
 
     let nl_val = nl(lat);
     let n_lon = if odd {
@@ -188,7 +214,7 @@ pub fn decode_locally(
     let d_lon = 360.0 / n_lon;
     let m = (ref_lon / d_lon - cpr_lon as f64 / 131_072.0 + 0.5).floor();
     let lon = d_lon * (m + cpr_lon as f64 / 131_072.0);
-    let lon = if lon >= 180.0 { lon - 360.0 } else { lon };
+    let lon = signed_longitude(lon);
 
     Ok((Degrees::new(lat), Degrees::new(lon)))
 }
-- 
2.43.0


From 7b824f41cc477bd1449d9e6cb9002c31c834783a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:48 +0000
Subject: [PATCH 25/85] fix: ADS-B velocity fields holding the no-information
 code decoded to minus one unit

---
 src/formats/adsb/mod.rs | 43 +++++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/src/formats/adsb/mod.rs b/src/formats/adsb/mod.rs
index f60d019..4d531ab 100644
--- a/src/formats/adsb/mod.rs
+++ b/src/formats/adsb/mod.rs
@@ -384,33 +384,42 @@ pub fn decode_airborne_velocity(frame: &AdsbFrame) -> Result<AirborneVelocityMes
     // Sub-types 1 and 2: ground-speed-based velocity
     if sub_type == 1 || sub_type == 2 {
         let sign_ew: f64 = if (me[1] & 0x04) != 0 { -1.0 } else { 1.0 };
-        let v_ew = (((me[1] as u16 & 0x03) << 8) | me[2] as u16) as f64 - 1.0;
+        // A raw value of zero means "no information"; others are offset by one.
+        let raw_ew = ((me[1] as u16 & 0x03) << 8) | me[2] as u16;
+
         let sign_ns: f64 = if (me[3] & 0x80) != 0 { -1.0 } else { 1.0 };
-        let v_ns = (((me[3] as u16 & 0x7F) << 3) | (me[4] >> 5) as u16) as f64 - 1.0;
+        let raw_ns = ((me[3] as u16 & 0x7F) << 3) | (me[4] >> 5) as u16;
 
-        // Convert knots → m/s (1 knot = 0.514444 m/s)
         let scale: f64 = if sub_type == 2 { 4.0 } else { 1.0 };
-        let vew_mps = sign_ew * v_ew * scale * 0.514_444;
-        let vns_mps = sign_ns * v_ns * scale * 0.514_444;
-
-        let gs = (vew_mps * vew_mps + vns_mps * vns_mps).sqrt();
-        let heading = if v_ew == 0.0 && v_ns == 0.0 {
-            None
+        let (heading, ground_speed_mps) = if raw_ew == 0 || raw_ns == 0 {
+            (None, None)
         } else {
-            let track_deg = vew_mps.atan2(vns_mps).to_degrees().rem_euclid(360.0);
-            Some(Degrees::new(track_deg))
+            let v_ew = raw_ew as f64 - 1.0;
+            let v_ns = raw_ns as f64 - 1.0;
+            let vew_mps = sign_ew * v_ew * scale * 0.514_444;
+            let vns_mps = sign_ns * v_ns * scale * 0.514_444;
+
+            let gs = (vew_mps * vew_mps + vns_mps * vns_mps).sqrt();
+            let heading = if v_ew == 0.0 && v_ns == 0.0 {
+                None
+            } else {
+                let track_deg = vew_mps.atan2(vns_mps).to_degrees().rem_euclid(360.0);
+                Some(Degrees::new(track_deg))
+            };
+            (heading, Some(MetersPerSecond::new(gs)))
         };
 
-        // Vertical rate: bits 30–38 of ME
         let vr_sign: f64 = if (me[4] & 0x08) != 0 { -1.0 } else { 1.0 };
-        let vr_raw = (((me[4] as u16 & 0x07) << 6) | (me[5] >> 2) as u16) as f64 - 1.0;
-        let vr_fpm = vr_sign * vr_raw * 64.0; // feet per minute
-        let vr_mps = vr_fpm * 0.00508; // fpm → m/s
+        let vr_raw = ((me[4] as u16 & 0x07) << 6) | (me[5] >> 2) as u16;
+        let vertical_rate_mps = (vr_raw != 0).then(|| {
+            let vr_fpm = vr_sign * (vr_raw as f64 - 1.0) * 64.0; // feet per minute
+            MetersPerSecond::new(vr_fpm * 0.00508) // fpm → m/s
+        });
 
         return Ok(AirborneVelocityMessage {
             heading,
-            ground_speed_mps: Some(MetersPerSecond::new(gs)),
-            vertical_rate_mps: Some(MetersPerSecond::new(vr_mps)),
+            ground_speed_mps,
+            vertical_rate_mps,
         });
     }
     Err(FormatError::located(
-- 
2.43.0


From bd2640570435b0bb72ec35061c0605d69eac2193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:51 +0000
Subject: [PATCH 26/85] fix: OMM readers reject malformed optional fields and
 writers refuse unencodable values

---
 src/formats/tle/omm/json.rs |  3 +-
 src/formats/tle/omm/kvn.rs  | 55 +++++++++++++--------------
 src/formats/tle/omm/mod.rs  | 75 +++++++++++++++++++++++++++++++++++++
 src/formats/tle/omm/xml.rs  | 50 +++++++++++++------------
 4 files changed, 129 insertions(+), 54 deletions(-)

diff --git a/src/formats/tle/omm/json.rs b/src/formats/tle/omm/json.rs
index 020c6df..a9a914a 100644
--- a/src/formats/tle/omm/json.rs
+++ b/src/formats/tle/omm/json.rs
@@ -9,7 +9,7 @@ use qtty::angular_rate::AngularRate;
 use qtty::time::Day;
 use serde::{Deserialize, Serialize};
 
-use super::{format_epoch, parse_epoch, Omm};
+use super::{check_writable, format_epoch, parse_epoch, Omm};
 use crate::formats::tle::TleError;
 use crate::formats::tle::{Classification, SatelliteNumber};
 
@@ -127,6 +127,7 @@ fn default_classification() -> String {
 
 impl OmmDto {
     fn from_omm(omm: &Omm) -> Result<Self, TleError> {
+        check_writable(omm, "JSON")?;
         Ok(Self {
             OBJECT_NAME: omm.object_name.clone(),
             OBJECT_ID: omm.object_id.clone(),
diff --git a/src/formats/tle/omm/kvn.rs b/src/formats/tle/omm/kvn.rs
index 98d400c..eda0775 100644
--- a/src/formats/tle/omm/kvn.rs
+++ b/src/formats/tle/omm/kvn.rs
@@ -8,9 +8,11 @@ use qtty::angular::Turn;
 use qtty::angular_rate::AngularRate;
 use qtty::time::Day;
 
-use super::{format_epoch, parse_epoch, Omm};
+use super::{
+    check_writable, format_epoch, parse_catalog_number, parse_epoch, parse_number, parse_unsigned, Omm,
+};
 use crate::formats::tle::TleError;
-use crate::formats::tle::{Classification, SatelliteNumber};
+use crate::formats::tle::Classification;
 
 /// Render an [`Omm`] to its KVN form.
 ///
@@ -27,6 +29,7 @@ use crate::formats::tle::{Classification, SatelliteNumber};
 /// assert!(text.contains("OBJECT_NAME = ISS (ZARYA)"));
 /// ```
 pub fn write(omm: &Omm) -> Result<String, TleError> {
+    check_writable(omm, "KVN")?;
     let epoch = format_epoch(omm.epoch)?;
     Ok(format!(
         "CCSDS_OMM_VERS = 2.0\n\
@@ -122,19 +125,11 @@ pub fn read(input: &str) -> Result<Omm, TleError> {
     let get = |k: &'static str| -> Result<&String, TleError> {
         kv.get(k).ok_or(TleError::OmmMissingField(k))
     };
-    let getf = |k: &'static str| -> Result<f64, TleError> {
-        let v = get(k)?;
-        v.parse::<f64>().map_err(|_| TleError::OmmMalformed {
-            format: "KVN",
-            reason: format!("{k}={v:?} is not a float"),
-        })
-    };
-    let getu = |k: &'static str| -> Result<u32, TleError> {
-        let v = get(k)?;
-        v.parse::<u32>().map_err(|_| TleError::OmmMalformed {
-            format: "KVN",
-            reason: format!("{k}={v:?} is not an unsigned integer"),
-        })
+    let getf = |k: &'static str| parse_number("KVN", k, get(k)?);
+    // Optional fields default when absent, but must be well formed when present.
+    let optf = |k: &'static str| match kv.get(k) {
+        Some(v) => parse_number("KVN", k, v),
+        None => Ok(0.0),
     };
 
     let object_name = get("OBJECT_NAME")?.clone();
@@ -147,8 +142,7 @@ pub fn read(input: &str) -> Result<Omm, TleError> {
     let cls_char = cls_raw.chars().next().unwrap_or('U');
     let classification = Classification::from_char(cls_char)?;
 
-    let norad_str = get("NORAD_CAT_ID")?;
-    let norad_id = SatelliteNumber::parse(norad_str)?;
+    let norad_id = parse_catalog_number("KVN", get("NORAD_CAT_ID")?)?;
 
     Ok(Omm {
         object_name,
@@ -160,19 +154,22 @@ pub fn read(input: &str) -> Result<Omm, TleError> {
         ra_of_asc_node: Degrees::new(getf("RA_OF_ASC_NODE")?),
         arg_of_pericenter: Degrees::new(getf("ARG_OF_PERICENTER")?),
         mean_anomaly: Degrees::new(getf("MEAN_ANOMALY")?),
-        ephemeris_type: kv
-            .get("EPHEMERIS_TYPE")
-            .and_then(|v| v.parse().ok())
-            .unwrap_or(0),
+        ephemeris_type: match kv.get("EPHEMERIS_TYPE") {
+            Some(v) => parse_unsigned("KVN", "EPHEMERIS_TYPE", v)?,
+            None => 0,
+        },
         classification,
         norad_id,
-        element_set_no: kv
-            .get("ELEMENT_SET_NO")
-            .and_then(|v| v.parse().ok())
-            .unwrap_or(0),
-        rev_at_epoch: getu("REV_AT_EPOCH").unwrap_or(0),
-        bstar: getf("BSTAR").unwrap_or(0.0),
-        mean_motion_dot: getf("MEAN_MOTION_DOT").unwrap_or(0.0),
-        mean_motion_ddot: getf("MEAN_MOTION_DDOT").unwrap_or(0.0),
+        element_set_no: match kv.get("ELEMENT_SET_NO") {
+            Some(v) => parse_unsigned("KVN", "ELEMENT_SET_NO", v)?,
+            None => 0,
+        },
+        rev_at_epoch: match kv.get("REV_AT_EPOCH") {
+            Some(v) => parse_unsigned("KVN", "REV_AT_EPOCH", v)?,
+            None => 0,
+        },
+        bstar: optf("BSTAR")?,
+        mean_motion_dot: optf("MEAN_MOTION_DOT")?,
+        mean_motion_ddot: optf("MEAN_MOTION_DDOT")?,
     })
 }
diff --git a/src/formats/tle/omm/mod.rs b/src/formats/tle/omm/mod.rs
index 4cdd4a5..d0ef167 100644
--- a/src/formats/tle/omm/mod.rs
+++ b/src/formats/tle/omm/mod.rs
@@ -213,6 +213,81 @@ pub(crate) fn contract_intl_designator(s: &str) -> String {
 }
 
 /// Format a [`Time<UTC>`] as the ISO-8601 fractional-second OMM epoch.
+/// Refuse element sets that no OMM encoding can carry: non-finite numbers and
+/// text with line breaks or other control characters.
+pub(crate) fn check_writable(omm: &Omm, format: &'static str) -> Result<(), TleError> {
+    let numbers = [
+        ("MEAN_MOTION", omm.mean_motion.value()),
+        ("ECCENTRICITY", omm.eccentricity),
+        ("INCLINATION", omm.inclination.value()),
+        ("RA_OF_ASC_NODE", omm.ra_of_asc_node.value()),
+        ("ARG_OF_PERICENTER", omm.arg_of_pericenter.value()),
+        ("MEAN_ANOMALY", omm.mean_anomaly.value()),
+        ("BSTAR", omm.bstar),
+        ("MEAN_MOTION_DOT", omm.mean_motion_dot),
+        ("MEAN_MOTION_DDOT", omm.mean_motion_ddot),
+    ];
+    for (field, value) in numbers {
+        if !value.is_finite() {
+            return Err(TleError::OmmMalformed {
+                format,
+                reason: format!("{field} is not finite ({value})"),
+            });
+        }
+    }
+    for (field, text) in [
+        ("OBJECT_NAME", &omm.object_name),
+        ("OBJECT_ID", &omm.object_id),
+    ] {
+        if text.chars().any(char::is_control) {
+            return Err(TleError::OmmMalformed {
+                format,
+                reason: format!("{field} contains control characters ({text:?})"),
+            });
+        }
+    }
+    Ok(())
+}
+
+/// Parse a finite number of field `key`.
+pub(crate) fn parse_number(
+    format: &'static str,
+    key: &'static str,
+    raw: &str,
+) -> Result<f64, TleError> {
+    match raw.parse::<f64>() {
+        Ok(v) if v.is_finite() => Ok(v),
+        _ => Err(TleError::OmmMalformed {
+            format,
+            reason: format!("{key}={raw:?} is not a number"),
+        }),
+    }
+}
+
+/// Parse an unsigned integer of field `key` that fits its type.
+pub(crate) fn parse_unsigned<T: std::str::FromStr>(
+    format: &'static str,
+    key: &'static str,
+    raw: &str,
+) -> Result<T, TleError> {
+    raw.parse::<T>().map_err(|_| TleError::OmmMalformed {
+        format,
+        reason: format!("{key}={raw:?} is not an unsigned integer in range"),
+    })
+}
+
+/// Parse a catalogue number: plain digits of any length, or Alpha-5.
+pub(crate) fn parse_catalog_number(
+    format: &'static str,
+    raw: &str,
+) -> Result<SatelliteNumber, TleError> {
+    if raw.bytes().all(|b| b.is_ascii_digit()) {
+        parse_unsigned(format, "NORAD_CAT_ID", raw).map(SatelliteNumber)
+    } else {
+        SatelliteNumber::parse(raw)
+    }
+}
+
 pub(crate) fn format_epoch(t: Time<UTC>) -> Result<String, TleError> {
     let dt = t
         .try_to_chrono()
diff --git a/src/formats/tle/omm/xml.rs b/src/formats/tle/omm/xml.rs
index 3599211..19b23f3 100644
--- a/src/formats/tle/omm/xml.rs
+++ b/src/formats/tle/omm/xml.rs
@@ -13,9 +13,11 @@ use qtty::angular::Turn;
 use qtty::angular_rate::AngularRate;
 use qtty::time::Day;
 
-use super::{format_epoch, parse_epoch, Omm};
+use super::{
+    check_writable, format_epoch, parse_catalog_number, parse_epoch, parse_number, parse_unsigned, Omm,
+};
 use crate::formats::tle::TleError;
-use crate::formats::tle::{Classification, SatelliteNumber};
+use crate::formats::tle::Classification;
 
 /// Render an [`Omm`] to its XML form (`<omm>...</omm>`).
 ///
@@ -30,6 +32,7 @@ use crate::formats::tle::{Classification, SatelliteNumber};
 /// assert!(xml.contains("<NORAD_CAT_ID>25544</NORAD_CAT_ID>"));
 /// ```
 pub fn write(omm: &Omm) -> Result<String, TleError> {
+    check_writable(omm, "XML")?;
     let epoch = format_epoch(omm.epoch)?;
     Ok(format!(
         "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n\
@@ -117,12 +120,11 @@ pub fn read(input: &str) -> Result<Omm, TleError> {
     let get = |k: &'static str| -> Result<&String, TleError> {
         kv.get(k).ok_or(TleError::OmmMissingField(k))
     };
-    let getf = |k: &'static str| -> Result<f64, TleError> {
-        let v = get(k)?;
-        v.parse::<f64>().map_err(|_| TleError::OmmMalformed {
-            format: "XML",
-            reason: format!("<{k}> = {v:?} is not a float"),
-        })
+    let getf = |k: &'static str| parse_number("XML", k, get(k)?);
+    // Optional fields default when absent, but must be well formed when present.
+    let optf = |k: &'static str| match kv.get(k) {
+        Some(v) => parse_number("XML", k, v),
+        None => Ok(0.0),
     };
 
     let object_name = xml_unescape(get("OBJECT_NAME")?);
@@ -134,7 +136,7 @@ pub fn read(input: &str) -> Result<Omm, TleError> {
         .unwrap_or("U");
     let cls_char = cls_raw.chars().next().unwrap_or('U');
     let classification = Classification::from_char(cls_char)?;
-    let norad_id = SatelliteNumber::parse(get("NORAD_CAT_ID")?)?;
+    let norad_id = parse_catalog_number("XML", get("NORAD_CAT_ID")?)?;
 
     Ok(Omm {
         object_name,
@@ -146,23 +148,23 @@ pub fn read(input: &str) -> Result<Omm, TleError> {
         ra_of_asc_node: Degrees::new(getf("RA_OF_ASC_NODE")?),
         arg_of_pericenter: Degrees::new(getf("ARG_OF_PERICENTER")?),
         mean_anomaly: Degrees::new(getf("MEAN_ANOMALY")?),
-        ephemeris_type: kv
-            .get("EPHEMERIS_TYPE")
-            .and_then(|v| v.parse().ok())
-            .unwrap_or(0),
+        ephemeris_type: match kv.get("EPHEMERIS_TYPE") {
+            Some(v) => parse_unsigned("XML", "EPHEMERIS_TYPE", v)?,
+            None => 0,
+        },
         classification,
         norad_id,
-        element_set_no: kv
-            .get("ELEMENT_SET_NO")
-            .and_then(|v| v.parse().ok())
-            .unwrap_or(0),
-        rev_at_epoch: kv
-            .get("REV_AT_EPOCH")
-            .and_then(|v| v.parse().ok())
-            .unwrap_or(0),
-        bstar: getf("BSTAR").unwrap_or(0.0),
-        mean_motion_dot: getf("MEAN_MOTION_DOT").unwrap_or(0.0),
-        mean_motion_ddot: getf("MEAN_MOTION_DDOT").unwrap_or(0.0),
+        element_set_no: match kv.get("ELEMENT_SET_NO") {
+            Some(v) => parse_unsigned("XML", "ELEMENT_SET_NO", v)?,
+            None => 0,
+        },
+        rev_at_epoch: match kv.get("REV_AT_EPOCH") {
+            Some(v) => parse_unsigned("XML", "REV_AT_EPOCH", v)?,
+            None => 0,
+        },
+        bstar: optf("BSTAR")?,
+        mean_motion_dot: optf("MEAN_MOTION_DOT")?,
+        mean_motion_ddot: optf("MEAN_MOTION_DDOT")?,
     })
 }
 
-- 
2.43.0


From 3da8c6edc41751eeb0a3acbd3b158d26974a0b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:51 +0000
Subject: [PATCH 27/85] fix: TLE writer refuses unrepresentable sets and
 carries epoch rounding; parser refuses mistyped fields

---
 src/formats/tle/builder.rs | 152 ++++++++++++++++++++++++++-----------
 src/formats/tle/parse.rs   |  45 +++++++----
 2 files changed, 138 insertions(+), 59 deletions(-)

diff --git a/src/formats/tle/builder.rs b/src/formats/tle/builder.rs
index b9da383..35d3de4 100644
--- a/src/formats/tle/builder.rs
+++ b/src/formats/tle/builder.rs
@@ -377,24 +377,26 @@ impl TleBuilder {
 pub fn format_tle(tle: &TLE) -> Result<(String, String), TleError> {
     let cat = tle.norad_id.format_alpha5()?;
     let cls = tle.classification.as_char();
-    let intl = format!("{:<8}", tle.international_designator.0);
-    let dt = tle
-        .epoch
-        .try_to_chrono()
-        .map_err(|e| TleError::EpochConversion(format!("{e:?}")))?;
-    let year = dt.year();
-    let yy = ((year % 100) + 100) % 100;
-    let doy = dt.ordinal();
-    let secs_of_day =
-        dt.num_seconds_from_midnight() as f64 + dt.timestamp_subsec_nanos() as f64 * 1e-9;
-    let frac_day = secs_of_day / 86_400.0;
-    let day_full = doy as f64 + frac_day;
-    let n_dot = format_signed_decimal(tle.mean_motion_dot);
-    let n_ddot = format_assumed_decimal_exponent(tle.mean_motion_ddot);
-    let bstar_s = format_assumed_decimal_exponent(tle.bstar);
-    let elset = format!("{:>4}", tle.element_set_number);
+    let designator = &tle.international_designator.0;
+    if designator.len() > 8
+        || !designator.bytes().all(|b| (b' '..=b'~').contains(&b))
+        || designator.trim() != designator
+    {
+        return Err(unrepresentable("international_designator", designator));
+    }
+    let intl = format!("{designator:<8}");
+    let (year, doy, frac) = epoch_columns(tle.epoch)?;
+    let yy = year % 100;
+    let n_dot = format_signed_decimal(tle.mean_motion_dot, "mean_motion_dot")?;
+    let n_ddot = format_assumed_decimal_exponent(tle.mean_motion_ddot, "mean_motion_ddot")?;
+    let bstar_s = format_assumed_decimal_exponent(tle.bstar, "bstar")?;
+    let elset = fixed_width(
+        format!("{:>4}", tle.element_set_number),
+        4,
+        "element_set_number",
+    )?;
     let mut l1 =
-        format!("1 {cat}{cls} {intl} {yy:02}{day_full:012.8} {n_dot} {n_ddot} {bstar_s} 0 {elset}");
+        format!("1 {cat}{cls} {intl} {yy:02}{doy:03}.{frac:08} {n_dot} {n_ddot} {bstar_s} 0 {elset}");
     debug_assert_eq!(
         l1.len(),
         68,
@@ -403,14 +405,25 @@ pub fn format_tle(tle: &TLE) -> Result<(String, String), TleError> {
     let cs1 = compute_tle_checksum(&l1);
     l1.push_str(&cs1.to_string());
 
-    let inc = format!("{:8.4}", tle.inclination.value());
-    let raan = format!("{:8.4}", tle.raan.value());
-    let ecc_scaled = (tle.eccentricity * 1.0e7).round() as u64;
-    let ecc = format!("{ecc_scaled:07}");
-    let argp = format!("{:8.4}", tle.argument_of_perigee.value());
-    let m_ano = format!("{:8.4}", tle.mean_anomaly.value());
-    let n_str = format!("{:11.8}", tle.mean_motion.value());
-    let rev = format!("{:>5}", tle.revolution_number_at_epoch);
+    let inc = format_angle(tle.inclination, "inclination")?;
+    let raan = format_angle(tle.raan, "raan")?;
+    let ecc_scaled = (tle.eccentricity * 1.0e7).round();
+    if !(0.0..1.0e7).contains(&ecc_scaled) {
+        return Err(unrepresentable("eccentricity", tle.eccentricity));
+    }
+    let ecc = format!("{:07}", ecc_scaled as u64);
+    let argp = format_angle(tle.argument_of_perigee, "argument_of_perigee")?;
+    let m_ano = format_angle(tle.mean_anomaly, "mean_anomaly")?;
+    let n_str = fixed_width(
+        format!("{:11.8}", tle.mean_motion.value()),
+        11,
+        "mean_motion",
+    )?;
+    let rev = fixed_width(
+        format!("{:>5}", tle.revolution_number_at_epoch),
+        5,
+        "revolution_number",
+    )?;
     let mut l2 = format!("2 {cat} {inc} {raan} {ecc} {argp} {m_ano} {n_str}{rev}");
     debug_assert_eq!(
         l2.len(),
@@ -422,32 +435,85 @@ pub fn format_tle(tle: &TLE) -> Result<(String, String), TleError> {
     Ok((l1, l2))
 }
 
-fn format_signed_decimal(v: f64) -> String {
+/// The value does not fit the fixed columns of its field.
+fn unrepresentable(field: &'static str, value: impl std::fmt::Display) -> TleError {
+    TleError::InvalidNumber {
+        field,
+        raw: value.to_string(),
+    }
+}
+
+fn fixed_width(text: String, width: usize, field: &'static str) -> Result<String, TleError> {
+    if text.len() == width && !text.contains(|c: char| c.is_ascii_alphabetic()) {
+        Ok(text)
+    } else {
+        Err(unrepresentable(field, text))
+    }
+}
+
+fn format_angle(angle: Degrees, field: &'static str) -> Result<String, TleError> {
+    fixed_width(format!("{:8.4}", angle.value()), 8, field)
+}
+
+/// Year, day of year and fraction of day in units of 1e-8 day, rounded to the
+/// printed precision with the carry taken into the day and the year.
+fn epoch_columns(epoch: Time<UTC>) -> Result<(i32, u32, u64), TleError> {
+    const UNIT_NS: u64 = 864_000;
+    const UNITS_PER_DAY: u64 = 100_000_000;
+    let dt = epoch
+        .try_to_chrono()
+        .map_err(|e| TleError::EpochConversion(format!("{e:?}")))?;
+    let nanos_of_day = u64::from(dt.num_seconds_from_midnight()) * 1_000_000_000
+        + u64::from(dt.timestamp_subsec_nanos());
+    let units = (nanos_of_day + UNIT_NS / 2) / UNIT_NS;
+    let mut date = dt.date_naive();
+    if units >= UNITS_PER_DAY {
+        date = date.succ_opt().ok_or_else(|| {
+            TleError::EpochConversion("epoch outside the supported calendar".into())
+        })?;
+    }
+    // Two-digit years stand for 1957–2056.
+    if !(1957..=2056).contains(&date.year()) {
+        return Err(TleError::InvalidEpoch {
+            year: date.year(),
+            day_of_year: f64::from(date.ordinal()),
+            reason: "year not representable with two digits",
+        });
+    }
+    Ok((date.year(), date.ordinal(), units % UNITS_PER_DAY))
+}
+
+fn format_signed_decimal(v: f64, field: &'static str) -> Result<String, TleError> {
     let sign = if v.is_sign_negative() { '-' } else { ' ' };
-    let mag = v.abs();
-    let fract = (mag * 1.0e8).round() as u64;
-    format!("{sign}.{fract:08}")
+    let scaled = (v.abs() * 1.0e8).round();
+    // Rejects NaN as well.
+    if !(0.0..1.0e8).contains(&scaled) {
+        return Err(unrepresentable(field, v));
+    }
+    Ok(format!("{sign}.{:08}", scaled as u64))
 }
 
-fn format_assumed_decimal_exponent(v: f64) -> String {
-    if v == 0.0 || !v.is_finite() {
-        return " 00000-0".to_string();
+fn format_assumed_decimal_exponent(v: f64, field: &'static str) -> Result<String, TleError> {
+    if v == 0.0 {
+        return Ok(" 00000-0".to_string());
+    }
+    if !v.is_finite() {
+        return Err(unrepresentable(field, v));
     }
     let sign = if v.is_sign_negative() { '-' } else { ' ' };
     let mag = v.abs();
-    let mut exp = mag.log10().floor() as i32 + 1;
-    let mut mantissa = mag / 10f64.powi(exp);
-    let scaled = (mantissa * 1.0e5).round() as u64;
-    if scaled >= 1_000_000 {
-        mantissa /= 10.0;
+    // One exponent digit: smaller magnitudes lose leading mantissa digits.
+    let mut exp = (mag.log10().floor() as i32 + 1).max(-9);
+    let mut scaled = (mag * 10f64.powi(5 - exp)).round() as u64;
+    if scaled >= 100_000 {
         exp += 1;
+        scaled = (mag * 10f64.powi(5 - exp)).round() as u64;
+    }
+    if exp > 9 {
+        return Err(unrepresentable(field, v));
     }
-    let scaled = (mantissa * 1.0e5).round() as u64;
     let exp_sign = if exp < 0 { '-' } else { '+' };
     let exp_abs = exp.unsigned_abs();
-    if exp_sign == '+' {
-        format!("{sign}{scaled:05}+{exp_abs}")
-    } else {
-        format!("{sign}{scaled:05}-{exp_abs}")
-    }
+    Ok(format!("{sign}{scaled:05}{exp_sign}{exp_abs}"))
 }
+
diff --git a/src/formats/tle/parse.rs b/src/formats/tle/parse.rs
index 676d2a1..f23f180 100644
--- a/src/formats/tle/parse.rs
+++ b/src/formats/tle/parse.rs
@@ -38,6 +38,12 @@ pub fn validate_tle_checksum(line: &str) -> Result<(), TleError> {
             got: line.len(),
         });
     }
+    if !line.is_ascii() {
+        return Err(TleError::BadLength {
+            line: line_no,
+            got: line.chars().count(),
+        });
+    }
     let bytes = line.as_bytes();
     let stated_byte = bytes[68];
     if !stated_byte.is_ascii_digit() {
@@ -158,16 +164,17 @@ fn parse_tle_inner(name: Option<String>, line1: &str, line2: &str) -> Result<TLE
     validate_tle_checksum(line1)?;
     validate_tle_checksum(line2)?;
 
+    // Both lines are ASCII from here on, so column slicing is safe.
     let norad_l1 = SatelliteNumber::parse(&line1[2..7])?;
     let classification = Classification::from_char(line1.as_bytes()[7] as char)?;
     let intl_des = InternationalDesignator(line1[9..17].trim().to_string());
-    let epoch_year_2 = parse_int_field(&line1[18..20], "epoch_year")?;
+    let epoch_year_2: u8 = parse_int_field(&line1[18..20], "epoch_year")?;
     let epoch_day = parse_float_field(&line1[20..32], "epoch_day")?;
     let mean_motion_dot = parse_signed_decimal(&line1[33..43], "mean_motion_dot")?;
     let mean_motion_ddot = parse_assumed_decimal_exponent(&line1[44..52], "mean_motion_ddot")?;
     let bstar = parse_assumed_decimal_exponent(&line1[53..61], "bstar")?;
     let element_set_number =
-        parse_int_field(line1[64..68].trim_start(), "element_set_number")? as u16;
+        parse_int_field(line1[64..68].trim_start(), "element_set_number")?;
 
     let norad_l2 = SatelliteNumber::parse(&line2[2..7])?;
     if norad_l1 != norad_l2 {
@@ -197,9 +204,9 @@ fn parse_tle_inner(name: Option<String>, line1: &str, line2: &str) -> Result<TLE
     let mean_motion_revs_per_day = parse_float_field(&line2[52..63], "mean_motion")?;
     let mean_motion = AngularRate::<Turn, Day>::new(mean_motion_revs_per_day);
     let revolution_number_at_epoch =
-        parse_int_field(line2[63..68].trim_start(), "revolution_number")? as u32;
+        parse_int_field(line2[63..68].trim_start(), "revolution_number")?;
 
-    let epoch = epoch_from_year_doy(expand_two_digit_year(epoch_year_2 as i32), epoch_day)?;
+    let epoch = epoch_from_year_doy(expand_two_digit_year(i32::from(epoch_year_2)), epoch_day)?;
 
     Ok(TLE {
         name,
@@ -251,28 +258,27 @@ pub(crate) fn epoch_from_year_doy(year: i32, day_of_year: f64) -> Result<Time<UT
     Time::<UTC>::try_from_chrono(dt).map_err(|e| TleError::EpochConversion(format!("{e:?}")))
 }
 
-fn parse_int_field(raw: &str, field: &'static str) -> Result<i64, TleError> {
+fn parse_int_field<T: std::str::FromStr>(raw: &str, field: &'static str) -> Result<T, TleError> {
     let s = raw.trim();
-    s.parse::<i64>().map_err(|_| TleError::InvalidNumber {
+    s.parse::<T>().map_err(|_| TleError::InvalidNumber {
         field,
         raw: raw.into(),
     })
 }
 
 fn parse_float_field(raw: &str, field: &'static str) -> Result<f64, TleError> {
-    let s = raw.trim();
-    s.parse::<f64>().map_err(|_| TleError::InvalidNumber {
-        field,
-        raw: raw.into(),
-    })
+    parse_signed_decimal(raw, field)
 }
 
 fn parse_signed_decimal(raw: &str, field: &'static str) -> Result<f64, TleError> {
     let s = raw.trim();
-    s.parse::<f64>().map_err(|_| TleError::InvalidNumber {
-        field,
-        raw: raw.into(),
-    })
+    match s.parse::<f64>() {
+        Ok(v) if v.is_finite() => Ok(v),
+        _ => Err(TleError::InvalidNumber {
+            field,
+            raw: raw.into(),
+        }),
+    }
 }
 
 /// Parse the TLE assumed-decimal-with-exponent encoding (e.g. `" 12345-3"` →
@@ -319,5 +325,12 @@ pub(crate) fn parse_assumed_decimal_exponent(
         field,
         raw: raw.into(),
     })?;
-    Ok(sign * mantissa * 10f64.powi(exp))
+    let value = sign * mantissa * 10f64.powi(exp);
+    if !value.is_finite() {
+        return Err(TleError::InvalidNumber {
+            field,
+            raw: raw.into(),
+        });
+    }
+    Ok(value)
 }
-- 
2.43.0


From 39e84a251f1f2c767f71ac7a82a48bb960c27c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:14 +0000
Subject: [PATCH 28/85] fix: OEM readers keep data around covariance/maneuver
 blocks and XML entities; epochs carry rounding; unencodable messages refused

---
 src/formats/ccsds/mod.rs |  18 +++
 src/formats/ccsds/oem.rs | 239 ++++++++++++++++++++++++++-------------
 2 files changed, 178 insertions(+), 79 deletions(-)

diff --git a/src/formats/ccsds/mod.rs b/src/formats/ccsds/mod.rs
index bd2e73a..30ff50f 100644
--- a/src/formats/ccsds/mod.rs
+++ b/src/formats/ccsds/mod.rs
@@ -8,3 +8,21 @@ pub use crate::formats::error::{FileLocation, FormatError, ParseMode};
 pub mod oem;
 pub mod opm;
 pub mod tdm;
+
+/// Check that a free-text field can be carried by every CCSDS encoding.
+fn check_text(what: &str, value: &str) -> Result<(), FormatError> {
+    if value.chars().any(char::is_control) || value.trim() != value {
+        return Err(FormatError::Format(format!(
+            "{what} {value:?} cannot be encoded"
+        )));
+    }
+    Ok(())
+}
+
+/// Check that a number can be written.
+fn check_number(what: &str, value: f64) -> Result<(), FormatError> {
+    if !value.is_finite() {
+        return Err(FormatError::Format(format!("{what} is not finite")));
+    }
+    Ok(())
+}
diff --git a/src/formats/ccsds/oem.rs b/src/formats/ccsds/oem.rs
index d5aa861..8517994 100644
--- a/src/formats/ccsds/oem.rs
+++ b/src/formats/ccsds/oem.rs
@@ -26,7 +26,7 @@
 //!   Messages, CCSDS 502.0-B-2 / 502.0-B-3.
 //! - Vallado, D. A. (2013). Fundamentals of Astrodynamics and Applications
 //!   (4th ed.). Microcosm Press.
-use super::FormatError;
+use super::{check_number, check_text, FormatError};
 use std::io::Write;
 
 /// A spacecraft state as stored in a CCSDS OEM file.
@@ -78,11 +78,7 @@ pub fn write_oem<W: Write>(
     meta: &OemMetadata,
     states: &[OemState],
 ) -> Result<(), FormatError> {
-    if states.is_empty() {
-        return Err(FormatError::Format(
-            "write_oem: no states to write".to_string(),
-        ));
-    }
+    check_writable("write_oem", meta, states)?;
     writeln!(w, "CCSDS_OEM_VERS = 3.0")?;
     writeln!(w, "CREATION_DATE  = 2026-01-01T00:00:00")?;
     writeln!(w, "ORIGINATOR     = SIDERUST-POD")?;
@@ -126,8 +122,13 @@ pub fn write_oem<W: Write>(
 /// Conversion is "calendar date in proleptic Gregorian, fractional seconds";
 /// no leap-second handling — the caller is responsible for the time system.
 fn jd_to_iso8601(jd: f64) -> String {
-    let jd_int = (jd + 0.5).floor() as i64;
-    let frac = jd + 0.5 - jd_int as f64;
+    const DAY_MICROS: i64 = 86_400_000_000;
+    let day_start = (jd + 0.5).floor();
+    // Round to the printed resolution before splitting, so that the last
+    // half microsecond of a day belongs to the next one.
+    let micros = ((jd - day_start + 0.5) * DAY_MICROS as f64).round() as i64;
+    let jd_int = day_start as i64 + micros.div_euclid(DAY_MICROS);
+    let micros = micros.rem_euclid(DAY_MICROS);
 
     let a = jd_int + 32_044;
     let b = (4 * a + 3) / 146_097;
@@ -139,17 +140,51 @@ fn jd_to_iso8601(jd: f64) -> String {
     let month = (m + 3 - 12 * (m / 10)) as u32;
     let year = (100 * b + d - 4_800 + (m / 10)) as i32;
 
-    let total_seconds = frac * 86_400.0;
-    let hours = (total_seconds / 3600.0).floor() as u32 % 24;
-    let mins = ((total_seconds % 3600.0) / 60.0).floor() as u32;
-    let secs = total_seconds % 60.0;
+    let hours = micros / 3_600_000_000;
+    let mins = micros / 60_000_000 % 60;
+    let secs = micros / 1_000_000 % 60;
 
     format!(
-        "{:04}-{:02}-{:02}T{:02}:{:02}:{:09.6}",
-        year, month, day, hours, mins, secs
+        "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:06}",
+        year,
+        month,
+        day,
+        hours,
+        mins,
+        secs,
+        micros % 1_000_000
     )
 }
 
+/// Check that every field of a message can be encoded.
+fn check_writable(what: &str, meta: &OemMetadata, states: &[OemState]) -> Result<(), FormatError> {
+    if states.is_empty() {
+        return Err(FormatError::Format(format!("{what}: no states to write")));
+    }
+    for text in [
+        &meta.object_id,
+        &meta.object_name,
+        &meta.ref_frame,
+        &meta.time_system,
+        &meta.center_name,
+    ] {
+        check_text(what, text)?;
+    }
+    for s in states {
+        // Calendar years 0000 to 9999.
+        if !(1_721_059.5..5_373_484.0).contains(&s.epoch_jd) {
+            return Err(FormatError::Format(format!(
+                "{what}: epoch JD {} cannot be encoded",
+                s.epoch_jd
+            )));
+        }
+        for v in s.position_km.iter().chain(&s.velocity_km_s) {
+            check_number(what, *v)?;
+        }
+    }
+    Ok(())
+}
+
 /// A parsed OEM segment.
 #[derive(Debug, Clone)]
 pub struct OemSegment {
@@ -218,7 +253,7 @@ pub fn read_oem<R: std::io::Read>(mut r: R) -> Result<OemFile, FormatError> {
         Header,
         Meta(MetaBuilder),
         Data(OemSegment),
-        SkipBlock,
+        SkipBlock(OemSegment),
     }
 
     #[derive(Default)]
@@ -304,32 +339,36 @@ pub fn read_oem<R: std::io::Read>(mut r: R) -> Result<OemFile, FormatError> {
                     continue;
                 }
                 if line == "COVARIANCE_START" || line == "MAN_START" {
-                    state = State::SkipBlock;
+                    // Skip the block, then carry on with the same segment.
+                    let open = OemSegment {
+                        metadata: seg.metadata.clone(),
+                        states: std::mem::take(&mut seg.states),
+                    };
+                    state = State::SkipBlock(open);
                     continue;
                 }
                 seg.states.push(parse_data_line(line, lineno)?);
             }
-            State::SkipBlock => {
+            State::SkipBlock(seg) => {
                 if line == "COVARIANCE_STOP" || line == "MAN_STOP" {
-                    // Re-enter the most recent Data segment.
-                    if let Some(last) = segments.last_mut() {
-                        let resumed = std::mem::replace(
-                            last,
-                            OemSegment {
-                                metadata: last.metadata.clone(),
-                                states: Vec::new(),
-                            },
-                        );
-                        state = State::Data(resumed);
-                    } else {
-                        state = State::Header;
-                    }
+                    let open = OemSegment {
+                        metadata: seg.metadata.clone(),
+                        states: std::mem::take(&mut seg.states),
+                    };
+                    state = State::Data(open);
                 }
             }
         }
     }
-    if let State::Data(seg) = state {
-        segments.push(seg);
+
+    match state {
+        State::Header => {}
+        State::Data(seg) => segments.push(seg),
+        State::Meta(_) | State::SkipBlock(_) => {
+            return Err(FormatError::Format(
+                "read_oem: file ends inside an open block".into(),
+            ))
+        }
     }
     if segments.is_empty() {
         return Err(FormatError::Format(
@@ -383,6 +422,18 @@ fn parse_data_line(line: &str, lineno: usize) -> Result<OemState, FormatError> {
     let vx = next_f64("VX")?;
     let vy = next_f64("VY")?;
     let vz = next_f64("VZ")?;
+    // An acceleration may follow; it is checked but not kept.
+    let rest: Vec<&str> = it.collect();
+    if !matches!(rest.len(), 0 | 3)
+        || !rest
+            .iter()
+            .all(|t| t.parse::<f64>().is_ok_and(f64::is_finite))
+    {
+        return Err(FormatError::Format(format!(
+            "read_oem: line {}: unexpected data after VZ",
+            lineno + 1
+        )));
+    }
     let jd = iso8601_to_jd(epoch_str).ok_or_else(|| {
         FormatError::Format(format!(
             "read_oem: line {}: cannot parse epoch {epoch_str}",
@@ -397,15 +448,36 @@ fn parse_data_line(line: &str, lineno: usize) -> Result<OemState, FormatError> {
 /// Accepts `YYYY-MM-DDTHH:MM:SS[.ffffff]`. The conversion is purely calendrical
 /// (no leap-second handling); the caller owns the time-system semantics.
 fn iso8601_to_jd(s: &str) -> Option<f64> {
+    if !s.is_ascii() || s.contains(['+', 'e', 'E']) {
+        return None;
+    }
     let (date, time) = s.split_once('T')?;
     let mut date_parts = date.split('-');
-    let year: i32 = date_parts.next()?.parse().ok()?;
+    let year: u16 = date_parts.next()?.parse().ok()?;
     let month: u32 = date_parts.next()?.parse().ok()?;
     let day: u32 = date_parts.next()?.parse().ok()?;
     let mut time_parts = time.split(':');
     let hour: u32 = time_parts.next()?.parse().ok()?;
     let minute: u32 = time_parts.next()?.parse().ok()?;
     let second: f64 = time_parts.next()?.parse().ok()?;
+    let month_days = match month {
+        2 if year % 4 == 0 && (year % 100 != 0 || year % 400 == 0) => 29,
+        2 => 28,
+        4 | 6 | 9 | 11 => 30,
+        1..=12 => 31,
+        _ => return None,
+    };
+    // Second 60 is a leap second.
+    if date_parts.next().is_some()
+        || time_parts.next().is_some()
+        || year > 9999
+        || !(1..=month_days).contains(&day)
+        || hour > 23
+        || minute > 59
+        || !(0.0..61.0).contains(&second)
+    {
+        return None;
+    }
 
     // Proleptic Gregorian calendar → JDN at 0h UT.
     let m = month as i64;
@@ -452,11 +524,7 @@ pub fn write_oem_xml<W: std::io::Write>(
     meta: &OemMetadata,
     states: &[OemState],
 ) -> Result<(), FormatError> {
-    if states.is_empty() {
-        return Err(FormatError::Format(
-            "write_oem_xml: no states to write".into(),
-        ));
-    }
+    check_writable("write_oem_xml", meta, states)?;
     let start = jd_to_iso8601(states[0].epoch_jd);
     let stop = jd_to_iso8601(states.last().unwrap().epoch_jd);
     writeln!(w, "<?xml version=\"1.0\" encoding=\"UTF-8\"?>")?;
@@ -574,7 +642,8 @@ pub fn read_oem_xml<R: std::io::Read>(mut r: R) -> Result<OemFile, FormatError>
     r.read_to_string(&mut text)
         .map_err(|e| FormatError::Format(format!("read_oem_xml: io: {e}")))?;
     let mut rdr = Reader::from_str(&text);
-    rdr.config_mut().trim_text(true);
+    let xml_text =
+        |e: &dyn std::fmt::Display| FormatError::Format(format!("read_oem_xml: xml text: {e}"));
 
     #[derive(Default)]
     struct StateBuilder {
@@ -602,7 +671,9 @@ pub fn read_oem_xml<R: std::io::Read>(mut r: R) -> Result<OemFile, FormatError>
     let mut originator = String::new();
     let mut segments: Vec<OemSegment> = Vec::new();
     let mut seg: Option<SegBuilder> = None;
+    // Innermost open element and the character data seen in it so far.
     let mut cur_tag: Option<String> = None;
+    let mut content = String::new();
     let mut buf = Vec::new();
 
     loop {
@@ -631,10 +702,47 @@ pub fn read_oem_xml<R: std::io::Read>(mut r: R) -> Result<OemFile, FormatError>
                     _ => {}
                 }
                 cur_tag = Some(local);
+                content.clear();
             }
             Event::End(e) => {
                 let name = String::from_utf8_lossy(e.name().as_ref()).to_string();
                 let local = name.rsplit(':').next().unwrap_or(&name).to_string();
+                // Only elements without children carry a value.
+                let leaf = cur_tag.take().is_some_and(|t| t == local);
+                let txt = content.trim().to_string();
+                content.clear();
+                if leaf {
+                    let number = || txt.parse::<f64>().ok().filter(|v| v.is_finite());
+                    if let Some(s) = seg.as_mut() {
+                        if let Some(b) = s.cur.as_mut() {
+                            match local.as_str() {
+                                "EPOCH" => b.epoch = iso8601_to_jd(&txt),
+                                "X" => b.x = number(),
+                                "Y" => b.y = number(),
+                                "Z" => b.z = number(),
+                                "X_DOT" => b.vx = number(),
+                                "Y_DOT" => b.vy = number(),
+                                "Z_DOT" => b.vz = number(),
+                                _ => {}
+                            }
+                        } else {
+                            match local.as_str() {
+                                "OBJECT_ID" => s.object_id = Some(txt),
+                                "OBJECT_NAME" => s.object_name = Some(txt),
+                                "REF_FRAME" => s.ref_frame = Some(txt),
+                                "TIME_SYSTEM" => s.time_system = Some(txt),
+                                "CENTER_NAME" => s.center_name = Some(txt),
+                                _ => {}
+                            }
+                        }
+                    } else {
+                        match local.as_str() {
+                            "CREATION_DATE" => creation_date = txt,
+                            "ORIGINATOR" => originator = txt,
+                            _ => {}
+                        }
+                    }
+                }
                 match local.as_str() {
                     "stateVector" => {
                         if let Some(s) = seg.as_mut() {
@@ -684,54 +792,27 @@ pub fn read_oem_xml<R: std::io::Read>(mut r: R) -> Result<OemFile, FormatError>
                     }
                     _ => {}
                 }
-                cur_tag = None;
             }
             Event::Text(t) => {
-                let txt =
-                    unescape(&t.xml10_content().map_err(|e| {
-                        FormatError::Format(format!("read_oem_xml: xml text: {e}"))
-                    })?)
-                    .map_err(|e| FormatError::Format(format!("read_oem_xml: xml text: {e}")))?
-                    .to_string();
-                let tag = match &cur_tag {
-                    Some(t) => t.as_str(),
-                    None => continue,
-                };
-                if let Some(s) = seg.as_mut() {
-                    if let Some(b) = s.cur.as_mut() {
-                        match tag {
-                            "EPOCH" => b.epoch = iso8601_to_jd(&txt),
-                            "X" => b.x = txt.parse().ok(),
-                            "Y" => b.y = txt.parse().ok(),
-                            "Z" => b.z = txt.parse().ok(),
-                            "X_DOT" => b.vx = txt.parse().ok(),
-                            "Y_DOT" => b.vy = txt.parse().ok(),
-                            "Z_DOT" => b.vz = txt.parse().ok(),
-                            _ => {}
-                        }
-                    } else {
-                        match tag {
-                            "OBJECT_ID" => s.object_id = Some(txt),
-                            "OBJECT_NAME" => s.object_name = Some(txt),
-                            "REF_FRAME" => s.ref_frame = Some(txt),
-                            "TIME_SYSTEM" => s.time_system = Some(txt),
-                            "CENTER_NAME" => s.center_name = Some(txt),
-                            _ => {}
-                        }
-                    }
-                } else {
-                    match tag {
-                        "CREATION_DATE" => creation_date = txt,
-                        "ORIGINATOR" => originator = txt,
-                        _ => {}
-                    }
-                }
+                content.push_str(&t.xml10_content().map_err(|e| xml_text(&e))?);
+            }
+            Event::CData(t) => {
+                content.push_str(&t.xml10_content().map_err(|e| xml_text(&e))?);
+            }
+            Event::GeneralRef(r) => {
+                let name = r.decode().map_err(|e| xml_text(&e))?;
+                content.push_str(&unescape(&format!("&{name};")).map_err(|e| xml_text(&e))?);
             }
             _ => {}
         }
         buf.clear();
     }
 
+    if seg.is_some() {
+        return Err(FormatError::Format(
+            "read_oem_xml: file ends inside a segment".into(),
+        ));
+    }
     if segments.is_empty() {
         return Err(FormatError::Format(
             "read_oem_xml: file contains no segments".into(),
-- 
2.43.0


From 494a50d0c350c4c468894a858dc4a9ae2018d5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:15 +0000
Subject: [PATCH 29/85] fix: OPM/TDM readers refuse malformed lines instead of
 dropping them; TDM keeps DOPPLER_INTEGRATED and participant numbers

---
 src/formats/ccsds/opm.rs | 44 ++++++++++++++++++++++++---
 src/formats/ccsds/tdm.rs | 66 ++++++++++++++++++++++++++++++++++++----
 2 files changed, 100 insertions(+), 10 deletions(-)

diff --git a/src/formats/ccsds/opm.rs b/src/formats/ccsds/opm.rs
index 48b7912..d004d16 100644
--- a/src/formats/ccsds/opm.rs
+++ b/src/formats/ccsds/opm.rs
@@ -23,7 +23,7 @@
 //!
 //! - CCSDS 502.0-B-3: Orbit Data Messages, Blue Book (2019).
 
-use super::FormatError;
+use super::{check_number, check_text, FormatError};
 use std::io::{BufRead, BufReader, Read, Write};
 
 /// OPM state vector (Cartesian).
@@ -202,8 +202,10 @@ pub fn read_opm<R: Read>(reader: R) -> Result<OpmMessage, FormatError> {
         let v = kv
             .get(k)
             .ok_or_else(|| FormatError::Format(format!("OPM: missing field {k}")))?;
-        v.parse::<f64>()
-            .map_err(|_| FormatError::Format(format!("OPM: cannot parse {k}={v:?}")))
+        match v.parse::<f64>() {
+            Ok(x) if x.is_finite() => Ok(x),
+            _ => Err(FormatError::Format(format!("OPM: cannot parse {k}={v:?}"))),
+        }
     };
 
     let metadata = OpmMetadata {
@@ -221,7 +223,15 @@ pub fn read_opm<R: Read>(reader: R) -> Result<OpmMessage, FormatError> {
         velocity_km_s: [getf("X_DOT")?, getf("Y_DOT")?, getf("Z_DOT")?],
     };
 
-    let keplerian = if kv.contains_key("SEMI_MAJOR_AXIS") {
+    let keplerian_keys = [
+        "SEMI_MAJOR_AXIS",
+        "ECCENTRICITY",
+        "INCLINATION",
+        "RA_OF_ASC_NODE",
+        "ARG_OF_PERICENTER",
+        "TRUE_ANOMALY",
+    ];
+    let keplerian = if keplerian_keys.iter().any(|k| kv.contains_key(*k)) {
         Some(KeplerianElements {
             semi_major_axis_km: getf("SEMI_MAJOR_AXIS")?,
             eccentricity: getf("ECCENTRICITY")?,
@@ -275,6 +285,32 @@ pub fn read_opm<R: Read>(reader: R) -> Result<OpmMessage, FormatError> {
 /// assert!(text.contains("OBJECT_NAME"));
 /// ```
 pub fn write_opm<W: Write>(w: &mut W, msg: &OpmMessage) -> Result<(), FormatError> {
+    let m = &msg.metadata;
+    for (what, text) in [
+        ("OPM OBJECT_NAME", &m.object_name),
+        ("OPM OBJECT_ID", &m.object_id),
+        ("OPM CENTER_NAME", &m.center_name),
+        ("OPM REF_FRAME", &m.ref_frame),
+        ("OPM TIME_SYSTEM", &m.time_system),
+        ("OPM EPOCH", &msg.state.epoch),
+    ] {
+        check_text(what, text)?;
+    }
+    for v in msg.state.position_km.iter().chain(&msg.state.velocity_km_s) {
+        check_number("OPM state component", *v)?;
+    }
+    if let Some(k) = &msg.keplerian {
+        for v in [
+            k.semi_major_axis_km,
+            k.eccentricity,
+            k.inclination_deg,
+            k.ra_of_asc_node_deg,
+            k.arg_of_pericenter_deg,
+            k.true_anomaly_deg,
+        ] {
+            check_number("OPM Keplerian element", v)?;
+        }
+    }
     writeln!(w, "CCSDS_OPM_VERS = 2.0").map_err(FormatError::Io)?;
     writeln!(w, "META_START").map_err(FormatError::Io)?;
     writeln!(w, "OBJECT_NAME          = {}", msg.metadata.object_name).map_err(FormatError::Io)?;
diff --git a/src/formats/ccsds/tdm.rs b/src/formats/ccsds/tdm.rs
index bcc6624..e026e8b 100644
--- a/src/formats/ccsds/tdm.rs
+++ b/src/formats/ccsds/tdm.rs
@@ -8,7 +8,7 @@
 //!
 //! - CCSDS 503.0-B-2: Tracking Data Message, Blue Book (2007).
 
-use super::FormatError;
+use super::{check_number, check_text, FormatError};
 use std::io::{BufRead, BufReader, Read, Write};
 
 /// TDM observation type.
@@ -130,6 +130,8 @@ pub fn read_tdm<R: Read>(reader: R) -> Result<TdmMessage, FormatError> {
     }
     let mut state = State::None;
     let mut current_meta = new_meta();
+    let mut participants: Vec<(Option<u32>, String)> = Vec::new();
+    let unclosed = || FormatError::Format("TDM: metadata block not closed".into());
 
     for result in buf.lines() {
         let line = result.map_err(FormatError::Io)?;
@@ -139,17 +141,30 @@ pub fn read_tdm<R: Read>(reader: R) -> Result<TdmMessage, FormatError> {
         }
         match line.as_str() {
             "META_START" => {
+                if matches!(state, State::Meta) {
+                    return Err(unclosed());
+                }
                 state = State::Meta;
                 current_meta = new_meta();
+                participants.clear();
                 continue;
             }
             "META_STOP" => {
+                if !matches!(state, State::Meta) {
+                    return Err(FormatError::Format("TDM: stray META_STOP".into()));
+                }
+                // PATH refers to participants by number, not by line order.
+                participants.sort_by_key(|(index, _)| *index);
+                current_meta.participants = participants.drain(..).map(|(_, p)| p).collect();
                 msg.metadata.push(current_meta.clone());
                 current_meta = new_meta();
                 state = State::None;
                 continue;
             }
             "DATA_START" => {
+                if matches!(state, State::Meta) {
+                    return Err(unclosed());
+                }
                 state = State::Data;
                 continue;
             }
@@ -166,7 +181,7 @@ pub fn read_tdm<R: Read>(reader: R) -> Result<TdmMessage, FormatError> {
             match state {
                 State::Meta => {
                     if key.starts_with("PARTICIPANT_") {
-                        current_meta.participants.push(val);
+                        participants.push((key["PARTICIPANT_".len()..].parse().ok(), val));
                     } else if key == "MODE" {
                         current_meta.mode = val;
                     } else if key == "PATH" {
@@ -184,9 +199,14 @@ pub fn read_tdm<R: Read>(reader: R) -> Result<TdmMessage, FormatError> {
                     })?;
                     let epoch = val[..colon].trim().to_string();
                     let value_str = val[colon + sep.len()..].trim();
-                    let value = value_str.parse::<f64>().map_err(|_| {
-                        FormatError::Format(format!("TDM: cannot parse value: {value_str:?}"))
-                    })?;
+                    let value = match value_str.parse::<f64>() {
+                        Ok(v) if v.is_finite() => v,
+                        _ => {
+                            return Err(FormatError::Format(format!(
+                                "TDM: cannot parse value: {value_str:?}"
+                            )))
+                        }
+                    };
                     let obs_type = keyword_to_obs_type(&key);
                     msg.observations.push(ObservationData {
                         obs_type,
@@ -196,8 +216,15 @@ pub fn read_tdm<R: Read>(reader: R) -> Result<TdmMessage, FormatError> {
                 }
                 State::None => {}
             }
+        } else if !matches!(state, State::None) {
+            return Err(FormatError::Format(format!(
+                "TDM: expected KEYWORD = value, found {line:?}"
+            )));
         }
     }
+    if matches!(state, State::Meta) {
+        return Err(unclosed());
+    }
 
     Ok(msg)
 }
@@ -214,7 +241,7 @@ fn new_meta() -> TdmMetadata {
 fn keyword_to_obs_type(kw: &str) -> ObservationType {
     match kw {
         "RANGE" => ObservationType::Range,
-        "DOPPLER_INSTANTANEOUS" | "DOPPLER_INTEGRATED" => ObservationType::Doppler,
+        "DOPPLER_INSTANTANEOUS" => ObservationType::Doppler,
         "ANGLE_1" => ObservationType::Angle1,
         "ANGLE_2" => ObservationType::Angle2,
         other => ObservationType::Other(other.to_string()),
@@ -263,6 +290,33 @@ fn obs_type_to_keyword(t: &ObservationType) -> &str {
 /// assert!(text.contains("RANGE"));
 /// ```
 pub fn write_tdm<W: Write>(w: &mut W, msg: &TdmMessage) -> Result<(), FormatError> {
+    for meta in &msg.metadata {
+        for p in &meta.participants {
+            check_text("TDM participant", p)?;
+        }
+        check_text("TDM MODE", &meta.mode)?;
+        check_text("TDM PATH", &meta.path)?;
+        check_text("TDM TIME_SYSTEM", &meta.time_system)?;
+    }
+    for obs in &msg.observations {
+        let keyword = obs_type_to_keyword(&obs.obs_type);
+        check_text("TDM keyword", keyword)?;
+        // These would not be read back as an observation.
+        if keyword.is_empty()
+            || keyword.contains('=')
+            || keyword.starts_with("COMMENT")
+            || keyword.starts_with("CCSDS_TDM")
+        {
+            return Err(FormatError::Format(format!(
+                "TDM keyword {keyword:?} cannot be encoded"
+            )));
+        }
+        check_text("TDM epoch", &obs.epoch)?;
+        if obs.epoch.is_empty() {
+            return Err(FormatError::Format("TDM epoch is empty".into()));
+        }
+        check_number("TDM observation", obs.value)?;
+    }
     writeln!(w, "CCSDS_TDM_VERS = 1.0").map_err(FormatError::Io)?;
     for (i, meta) in msg.metadata.iter().enumerate() {
         if i > 0 {
-- 
2.43.0


From ff94ba2fd60dcfc8265ac193358047b11c93017c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:04 +0000
Subject: [PATCH 30/85] fix: SP3 epochs round with carry and unencodable
 records are refused

---
 src/formats/civil.rs   | 130 +++++++++++++++++++++++++++++++++++++++++
 src/formats/igs/sp3.rs |  50 ++++++++--------
 src/formats/mod.rs     |   1 +
 3 files changed, 157 insertions(+), 24 deletions(-)
 create mode 100644 src/formats/civil.rs

diff --git a/src/formats/civil.rs b/src/formats/civil.rs
new file mode 100644
index 0000000..7daf321
--- /dev/null
+++ b/src/formats/civil.rs
@@ -0,0 +1,130 @@
+// SPDX-License-Identifier: AGPL-3.0-only
+// Copyright (C) 2026 Vallés Puig, Ramon
+
+//! Calendar-field ↔ UTC conversions shared by the text product readers and
+//! writers.
+
+use chrono::{DateTime, Datelike, Duration, NaiveDate, Timelike, Utc as ChronoUtc};
+use tempoch::{ConversionError, Time, UTC};
+
+const NANOS_PER_SECOND: i64 = 1_000_000_000;
+
+/// Calendar fields of a UTC instant, the seconds rounded to the number of
+/// decimals a format prints.
+#[derive(Debug, Clone, Copy, PartialEq)]
+pub(crate) struct CivilUtc {
+    pub year: i32,
+    pub month: u32,
+    pub day: u32,
+    pub hour: u32,
+    pub minute: u32,
+    /// Seconds of the minute, in `[0, 60)`, or `[60, 61)` within a leap second.
+    pub second: f64,
+}
+
+fn to_utc(date: NaiveDate, hour: u32, minute: u32, second: u32, nanos: u32) -> Option<Time<UTC>> {
+    let naive = date.and_hms_nano_opt(hour, minute, second, nanos)?;
+    Time::<UTC>::try_from_chrono(DateTime::<ChronoUtc>::from_naive_utc_and_offset(
+        naive, ChronoUtc,
+    ))
+    .ok()
+}
+
+/// Build a UTC instant from calendar fields; the seconds are rounded to
+/// nanoseconds, carrying into the next minute where needed. `None` when the
+/// fields do not name a UTC instant.
+pub(crate) fn utc_from_civil(
+    year: i32,
+    month: u32,
+    day: u32,
+    hour: u32,
+    minute: u32,
+    second: f64,
+) -> Option<Time<UTC>> {
+    if !(0.0..61.0).contains(&second) {
+        return None;
+    }
+    let date = NaiveDate::from_ymd_opt(year, month, day)?;
+    let nanos = (second * NANOS_PER_SECOND as f64).round() as i64;
+    let (whole, sub) = (nanos / NANOS_PER_SECOND, (nanos % NANOS_PER_SECOND) as u32);
+    if whole < 60 {
+        return to_utc(date, hour, minute, whole as u32, sub);
+    }
+    // 60.x is a leap second where one was inserted, …
+    if hour == 23 && minute == 59 && whole == 60 {
+        if let Some(t) = to_utc(date, hour, minute, 59, NANOS_PER_SECOND as u32 + sub) {
+            return Some(t);
+        }
+    }
+    // … and 59.999… that rounds up is the start of the next minute.
+    if second < 60.0 {
+        let next = date
+            .and_hms_opt(hour, minute, 59)?
+            .checked_add_signed(Duration::seconds(1))?;
+        return to_utc(next.date(), next.hour(), next.minute(), next.second(), 0);
+    }
+    None
+}
+
+/// Build a UTC instant from a calendar day and seconds of that day. `None` when
+/// the seconds are not within the day.
+pub(crate) fn utc_from_day_seconds(date: NaiveDate, seconds_of_day: f64) -> Option<Time<UTC>> {
+    if !(0.0..86_401.0).contains(&seconds_of_day) {
+        return None;
+    }
+    // A leap second is the 61st second of the last minute.
+    let minute = ((seconds_of_day / 60.0) as u32).min(24 * 60 - 1);
+    utc_from_civil(
+        date.year(),
+        date.month(),
+        date.day(),
+        minute / 60,
+        minute % 60,
+        seconds_of_day - 60.0 * minute as f64,
+    )
+}
+
+/// Calendar fields of `time` with the seconds rounded to `decimals` (at most
+/// nine) places, so that printing them never yields a 60th second that is not
+/// a leap second.
+pub(crate) fn civil_from_utc(time: Time<UTC>, decimals: u32) -> Result<CivilUtc, ConversionError> {
+    let dt = time.try_to_chrono()?;
+    let unit = 10_i64.pow(9 - decimals.min(9));
+    // `nanosecond` exceeds one second only within a leap second.
+    let raw = dt.second() as i64 * NANOS_PER_SECOND + dt.nanosecond() as i64;
+    let nanos = (raw + unit / 2) / unit * unit;
+    let leap_minute = || {
+        to_utc(
+            dt.date_naive(),
+            dt.hour(),
+            dt.minute(),
+            59,
+            NANOS_PER_SECOND as u32,
+        )
+        .is_some()
+    };
+    let length =
+        if raw >= 60 * NANOS_PER_SECOND || (nanos >= 60 * NANOS_PER_SECOND && leap_minute()) {
+            61
+        } else {
+            60
+        };
+    let (at, nanos) = if nanos >= length * NANOS_PER_SECOND {
+        let start = dt
+            .naive_utc()
+            .with_second(0)
+            .and_then(|n| n.with_nanosecond(0));
+        let next = start.unwrap_or(dt.naive_utc()) + Duration::minutes(1);
+        (next, 0)
+    } else {
+        (dt.naive_utc(), nanos)
+    };
+    Ok(CivilUtc {
+        year: at.year(),
+        month: at.month(),
+        day: at.day(),
+        hour: at.hour(),
+        minute: at.minute(),
+        second: nanos as f64 / NANOS_PER_SECOND as f64,
+    })
+}
diff --git a/src/formats/igs/sp3.rs b/src/formats/igs/sp3.rs
index 0755375..c3f4233 100644
--- a/src/formats/igs/sp3.rs
+++ b/src/formats/igs/sp3.rs
@@ -31,7 +31,6 @@
 use affn::cartesian;
 use affn::centers::{AffineCenter, ReferenceCenter};
 use affn::frames::GCRS;
-use chrono::{DateTime, NaiveDate, Utc as ChronoUtc};
 use qtty::time::Microseconds;
 use qtty::unit::Kilometer;
 
@@ -116,18 +115,11 @@ fn civil_to_time_utc(
     second: f64,
     line: usize,
 ) -> Result<Time<UTC>, Sp3Error> {
-    let second_int = second as u32;
-    let nanos = ((second - second_int as f64) * 1e9).round() as u32;
-    let naive = NaiveDate::from_ymd_opt(year, month, day)
-        .and_then(|d| d.and_hms_nano_opt(hour, minute, second_int, nanos))
-        .ok_or_else(|| Sp3Error::Record {
+    crate::formats::civil::utc_from_civil(year, month, day, hour, minute, second).ok_or_else(|| {
+        Sp3Error::Record {
             line,
             message: "invalid epoch date/time".into(),
-        })?;
-    let dt: DateTime<ChronoUtc> = DateTime::from_naive_utc_and_offset(naive, ChronoUtc);
-    Time::<UTC>::try_from_chrono(dt).map_err(|e| Sp3Error::Record {
-        line,
-        message: format!("epoch UTC conversion: {e}"),
+        }
     })
 }
 
@@ -254,27 +246,37 @@ where
 /// Write an SP3 record. The header lines are emitted verbatim, then each
 /// epoch as `* YYYY MM DD HH MM SS.SS...` followed by `PXXX X Y Z CLK` lines.
 pub fn write_sp3<W: Write>(w: &mut W, rec: &Sp3Record) -> Result<(), Sp3Error> {
-    use chrono::{Datelike, Timelike};
-    for h in &rec.header {
+    for (i, h) in rec.header.iter().enumerate() {
+        // Such a line would be read back as the end of the header.
+        if h.starts_with('*') || h == "EOF" || h.contains(['\r', '\n']) {
+            return Err(Sp3Error::Header {
+                line: i + 1,
+                message: format!("not a header line: {h:?}"),
+            });
+        }
         writeln!(w, "{h}")?;
     }
     for e in &rec.epochs {
-        let dt = e.time.try_to_chrono().map_err(|err| Sp3Error::Record {
-            line: 0,
-            message: format!("epoch to chrono: {err}"),
-        })?;
-        let second = dt.second() as f64 + dt.nanosecond() as f64 / 1e9;
+        let t =
+            crate::formats::civil::civil_from_utc(e.time, 8).map_err(|err| Sp3Error::Record {
+                line: 0,
+                message: format!("epoch to chrono: {err}"),
+            })?;
         writeln!(
             w,
             "*  {:4} {:>2} {:>2} {:>2} {:>2} {:11.8}",
-            dt.year(),
-            dt.month(),
-            dt.day(),
-            dt.hour(),
-            dt.minute(),
-            second
+            t.year, t.month, t.day, t.hour, t.minute, t.second
         )?;
         for p in &e.positions {
+            if p.sat_id.len() > 3
+                || !p.sat_id.bytes().all(|b| (b' '..=b'~').contains(&b))
+                || p.sat_id.trim() != p.sat_id
+            {
+                return Err(Sp3Error::Record {
+                    line: 0,
+                    message: format!("satellite id {:?} does not fit three columns", p.sat_id),
+                });
+            }
             writeln!(
                 w,
                 "P{:<3} {:14.6} {:14.6} {:14.6} {:14.6}",
diff --git a/src/formats/mod.rs b/src/formats/mod.rs
index 4e4e1b4..88ef051 100644
--- a/src/formats/mod.rs
+++ b/src/formats/mod.rs
@@ -26,6 +26,7 @@
 
 pub mod adsb;
 pub mod ccsds;
+mod civil;
 pub mod error;
 pub mod iers;
 pub mod igs;
-- 
2.43.0


From 98fcaf68b247f754dd7ca1b9c8ad43797dba6ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:04 +0000
Subject: [PATCH 31/85] fix: SINEX stations keep file order, one per point and
 solution; YY pivot 50

---
 src/formats/igs/sinex.rs | 68 ++++++++++++++++++++++++++--------------
 1 file changed, 44 insertions(+), 24 deletions(-)

diff --git a/src/formats/igs/sinex.rs b/src/formats/igs/sinex.rs
index 97c6acb..425f5e3 100644
--- a/src/formats/igs/sinex.rs
+++ b/src/formats/igs/sinex.rs
@@ -150,10 +150,13 @@ pub fn read_sinex<R: Read>(reader: R, mode: ParseMode) -> Result<SinexSolution,
         xyz: [Option<f64>; 3],
         vel: [Option<f64>; 3],
         ref_epoch_mjd: f64,
+        code: String,
         pt: String,
         soln: String,
     }
-    let mut estimates: HashMap<String, EstRow> = HashMap::new();
+    // One station per (site code, point code, solution), in file order.
+    let mut estimates: Vec<EstRow> = Vec::new();
+    let mut index: HashMap<(String, String, String), usize> = HashMap::new();
 
     #[derive(PartialEq)]
     enum Block {
@@ -239,10 +242,29 @@ pub fn read_sinex<R: Read>(reader: R, mode: ParseMode) -> Result<SinexSolution,
                     }
                 };
 
-                let ref_epoch_mjd = sinex_epoch_to_mjd(epoch_raw);
-                let row = estimates.entry(code.clone()).or_default();
-                row.pt = pt;
-                row.soln = soln;
+                let ref_epoch_mjd = match sinex_epoch_to_mjd(epoch_raw) {
+                    Some(mjd) => mjd,
+                    None if mode == ParseMode::Strict => {
+                        return Err(FormatError::located(
+                            "SINEX 2.10 §4.2",
+                            FileLocation::at_line(lineno),
+                            format!("cannot parse reference epoch: {epoch_raw}"),
+                        ));
+                    }
+                    None => 0.0,
+                };
+                let slot = *index
+                    .entry((code.clone(), pt.clone(), soln.clone()))
+                    .or_insert_with(|| {
+                        estimates.push(EstRow {
+                            code,
+                            pt,
+                            soln,
+                            ..EstRow::default()
+                        });
+                        estimates.len() - 1
+                    });
+                let row = &mut estimates[slot];
                 row.ref_epoch_mjd = ref_epoch_mjd;
                 match est_type {
                     "STAX" => row.xyz[0] = Some(value),
@@ -259,7 +281,7 @@ pub fn read_sinex<R: Read>(reader: R, mode: ParseMode) -> Result<SinexSolution,
     }
 
     // Build station records from accumulated estimates.
-    for (code, row) in estimates {
+    for row in estimates {
         let (x, y, z) = match (row.xyz[0], row.xyz[1], row.xyz[2]) {
             (Some(x), Some(y), Some(z)) => (x, y, z),
             _ => continue,
@@ -269,7 +291,7 @@ pub fn read_sinex<R: Read>(reader: R, mode: ParseMode) -> Result<SinexSolution,
             _ => None,
         };
         solution.stations.push(StationCoordinate {
-            code,
+            code: row.code,
             point_code: row.pt,
             solution_id: row.soln,
             ref_epoch_mjd: row.ref_epoch_mjd,
@@ -282,28 +304,26 @@ pub fn read_sinex<R: Read>(reader: R, mode: ParseMode) -> Result<SinexSolution,
 }
 
 /// Convert a SINEX epoch string `"YY:DDD:SSSSS"` to MJD.
-fn sinex_epoch_to_mjd(s: &str) -> f64 {
+fn sinex_epoch_to_mjd(s: &str) -> Option<f64> {
     let parts: Vec<&str> = s.split(':').collect();
-    if parts.len() != 3 {
-        return 0.0;
-    }
-    let yy: i32 = parts[0].parse().unwrap_or(0);
-    let doy: u32 = parts[1].parse().unwrap_or(1);
-    let sod: f64 = parts[2].parse().unwrap_or(0.0);
-    let yyyy = if yy == 0 {
-        2000
-    } else if yy >= 80 {
-        1900 + yy
-    } else {
-        2000 + yy
+    let [yy, doy, sod] = parts[..] else {
+        return None;
     };
-    let epoch = match chrono::NaiveDate::from_yo_opt(yyyy, doy.max(1)) {
-        Some(d) => d,
-        None => return 0.0,
+    let yy: i32 = yy.parse().ok()?;
+    let doy: u32 = doy.parse().ok()?;
+    let sod: f64 = sod.parse().ok()?;
+
+    // SINEX: YY ≤ 50 means 20YY, otherwise 19YY.
+    let yyyy = match yy {
+        0..=50 => 2000 + yy,
+        51..=99 => 1900 + yy,
+        _ => yy,
     };
+
+    let epoch = chrono::NaiveDate::from_yo_opt(yyyy, doy.max(1))?;
     let mjd_ref = chrono::NaiveDate::from_ymd_opt(1858, 11, 17).expect("valid MJD epoch");
     let days = (epoch - mjd_ref).num_days() as f64;
-    days + sod / 86400.0
+    Some(days + sod / 86400.0)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 55b2b68b7b9c66e1bd762746b31b0d639bf805be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:04 +0000
Subject: [PATCH 32/85] fix: ORBEX strict mode refuses unreadable epochs

---
 src/formats/igs/orbex.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/formats/igs/orbex.rs b/src/formats/igs/orbex.rs
index 911515b..cbcd9bb 100644
--- a/src/formats/igs/orbex.rs
+++ b/src/formats/igs/orbex.rs
@@ -168,6 +168,13 @@ pub fn read_orbex<R: Read>(reader: R, mode: ParseMode) -> Result<OrbexProduct, F
         if line.starts_with("##") {
             let rest = line.trim_start_matches('#').trim();
             let parts: Vec<&str> = rest.split_whitespace().collect();
+            if mode == ParseMode::Strict && orbex_epoch(&parts).is_none() {
+                return Err(FormatError::located(
+                    "ORBEX §3",
+                    FileLocation::at_line(lineno),
+                    format!("cannot parse epoch: {rest:?}"),
+                ));
+            }
             if parts.len() >= 3 {
                 let year: i32 = parts[0].parse().unwrap_or(2000);
                 let doy: u32 = parts[1].parse().unwrap_or(1);
@@ -298,6 +305,15 @@ fn parse_f64(s: &str, lineno: usize, what: &str, mode: ParseMode) -> Result<f64,
     })
 }
 
+fn orbex_epoch(parts: &[&str]) -> Option<f64> {
+    let [year, doy, sod, ..] = parts else {
+        return None;
+    };
+    let (year, doy): (i32, u32) = (year.parse().ok()?, doy.parse().ok()?);
+    chrono::NaiveDate::from_yo_opt(year, doy)?;
+    Some(orbex_epoch_to_mjd(year, doy, sod.parse().ok()?))
+}
+
 fn orbex_epoch_to_mjd(year: i32, doy: u32, sod: f64) -> f64 {
     let epoch = match chrono::NaiveDate::from_yo_opt(year, doy.max(1)) {
         Some(d) => d,
-- 
2.43.0


From 45e6cbd97dea3e15bee0b15430ae1444a2780aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:04 +0000
Subject: [PATCH 33/85] fix: ANTEX offsets that touch are read and unencodable
 entries refused

---
 src/formats/igs/antex.rs | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/formats/igs/antex.rs b/src/formats/igs/antex.rs
index ca5da97..1ec2c8d 100644
--- a/src/formats/igs/antex.rs
+++ b/src/formats/igs/antex.rs
@@ -90,10 +90,17 @@ pub fn read_antex<R: Read>(rdr: R) -> Result<AntexCatalog, FormatError> {
             }
             "NORTH / EAST / UP" => {
                 if let Some(freq) = &current_freq {
-                    let parts: Vec<f64> = body
+                    let mut parts: Vec<f64> = body
                         .split_whitespace()
                         .filter_map(|s| s.parse().ok())
                         .collect();
+                    if parts.len() != 3 {
+                        // 3F10.2: adjacent fields may touch.
+                        parts = [0..10, 10..20, 20..30]
+                            .into_iter()
+                            .filter_map(|r| body.get(r)?.trim().parse().ok())
+                            .collect();
+                    }
                     if parts.len() == 3 {
                         current_pcos.insert(freq.clone(), Pco::new(parts[0], parts[1], parts[2]));
                     }
@@ -114,7 +121,13 @@ pub fn read_antex<R: Read>(rdr: R) -> Result<AntexCatalog, FormatError> {
 }
 
 fn header_line<W: Write>(w: &mut W, body: &str, label: &str) -> std::io::Result<()> {
-    let body = if body.len() > 60 { &body[..60] } else { body };
+    // A longer or multi-byte body would push the label out of column 61.
+    if body.len() > 60 || !body.bytes().all(|b| (b' '..=b'~').contains(&b)) {
+        return Err(std::io::Error::new(
+            std::io::ErrorKind::InvalidData,
+            format!("ANTEX field does not fit columns 1-60: {body:?}"),
+        ));
+    }
     writeln!(w, "{:<60}{}", body, label)
 }
 
@@ -167,12 +180,18 @@ pub fn write_antex<W: Write>(w: &mut W, catalog: &AntexCatalog) -> Result<(), Fo
     antennas.sort();
     for ant in antennas {
         header_line(w, "", "START OF ANTENNA")?;
+        if ant.trim() != ant {
+            return Err(FormatError::Format(format!("ANTEX antenna name {ant:?}")));
+        }
         header_line(w, ant, "TYPE / SERIAL NO")?;
         let pcos = &catalog[ant];
         let mut freqs: Vec<&String> = pcos.keys().collect();
         freqs.sort();
         for freq in freqs {
             let pco = &pcos[freq];
+            if freq.is_empty() || freq.contains(char::is_whitespace) {
+                return Err(FormatError::Format(format!("ANTEX frequency {freq:?}")));
+            }
             header_line(w, &format!("   {:<3}", freq), "START OF FREQUENCY")?;
             let body = format!(
                 "{:10.2}{:10.2}{:10.2}",
@@ -180,6 +199,11 @@ pub fn write_antex<W: Write>(w: &mut W, catalog: &AntexCatalog) -> Result<(), Fo
                 pco.y().value(),
                 pco.z().value()
             );
+            if body.len() != 30 {
+                return Err(FormatError::Format(format!(
+                    "ANTEX offset does not fit 3F10.2: {body}"
+                )));
+            }
             header_line(w, &body, "NORTH / EAST / UP")?;
             header_line(w, &format!("   {:<3}", freq), "END OF FREQUENCY")?;
         }
-- 
2.43.0


From 65aed11b6f44ab4fb17167823425e5106cc97228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:04 +0000
Subject: [PATCH 34/85] fix: CPF and CRD epochs round with carry and stay
 within the day

---
 src/formats/ilrs/cpf.rs | 66 +++++++++++++++--------------------------
 src/formats/ilrs/crd.rs | 11 ++-----
 2 files changed, 26 insertions(+), 51 deletions(-)

diff --git a/src/formats/ilrs/cpf.rs b/src/formats/ilrs/cpf.rs
index 812635b..12d537a 100644
--- a/src/formats/ilrs/cpf.rs
+++ b/src/formats/ilrs/cpf.rs
@@ -38,7 +38,7 @@ use super::{FileLocation, FormatError, ParseMode};
 use affn::cartesian;
 use affn::centers::{AffineCenter, ReferenceCenter};
 use affn::frames::ITRF;
-use chrono::{DateTime, NaiveDate, Utc as ChronoUtc};
+use chrono::NaiveDate;
 use qtty::unit::Kilometer;
 use qtty::Day;
 use std::fs;
@@ -290,7 +290,7 @@ pub fn write_cpf<W: Write>(f: &CpfFile, w: &mut W) -> Result<(), FormatError> {
         f.sic,
         if f.norad.is_empty() { "0" } else { &f.norad },
         if f.time_step_s > 0.0 {
-            format!("{}", f.time_step_s as u64)
+            format!("{}", f.time_step_s)
         } else {
             "60".to_string()
         },
@@ -299,7 +299,7 @@ pub fn write_cpf<W: Write>(f: &CpfFile, w: &mut W) -> Result<(), FormatError> {
     .map_err(FormatError::Io)?;
     // Position records.
     for entry in &f.ephemeris.entries {
-        let (mjd_int, sod) = mjd_sod_from_epoch(entry.epoch);
+        let (mjd_int, sod) = mjd_sod_from_epoch(entry.epoch)?;
         // Convert km back to metres for the on-the-wire representation.
         let x_m = entry.position.x().value() * 1_000.0;
         let y_m = entry.position.y().value() * 1_000.0;
@@ -317,17 +317,19 @@ pub fn write_cpf<W: Write>(f: &CpfFile, w: &mut W) -> Result<(), FormatError> {
 
 /// Decompose a UTC epoch into the `(integer MJD, seconds-of-day)`
 /// pair used by CPF record 10.
-fn mjd_sod_from_epoch(epoch: Time<UTC>) -> (i64, f64) {
-    use chrono::Timelike;
-    let dt = epoch
-        .try_to_chrono()
-        .expect("CPF UTC epoch must be representable in chrono");
-    let mjd_epoch =
-        NaiveDate::from_ymd_opt(1858, 11, 17).expect("MJD epoch 1858-11-17 is a valid date");
-    let mjd_int = dt.date_naive().signed_duration_since(mjd_epoch).num_days();
-    let sod = (dt.time().num_seconds_from_midnight() as f64)
-        + (dt.timestamp_subsec_nanos() as f64) * 1e-9;
-    (mjd_int, sod)
+fn mjd_sod_from_epoch(epoch: Time<UTC>) -> Result<(i64, f64), FormatError> {
+    // Rounded as printed, so that the day and its seconds stay consistent.
+    let t = crate::formats::civil::civil_from_utc(epoch, 3)
+        .map_err(|e| FormatError::Format(format!("CPF epoch: {e}")))?;
+    let date = NaiveDate::from_ymd_opt(t.year, t.month, t.day)
+        .ok_or_else(|| FormatError::Format("CPF epoch out of range".into()))?;
+    let mjd_int = date.signed_duration_since(mjd_epoch()).num_days();
+    let sod = f64::from(t.hour * 3_600 + t.minute * 60) + t.second;
+    Ok((mjd_int, sod))
+}
+
+fn mjd_epoch() -> NaiveDate {
+    NaiveDate::from_ymd_opt(1858, 11, 17).expect("MJD epoch 1858-11-17 is a valid date")
 }
 
 // ── Internal parser ───────────────────────────────────────────────────────────
@@ -456,34 +458,14 @@ fn parse_cpf_impl(
 
 /// Build a `Time<UTC>` from an integer MJD and fractional seconds-of-day.
 fn build_epoch_from_mjd_sod(mjd_int: i64, sod: f64) -> Result<Time<UTC>, FormatError> {
-    // Convert MJD to calendar date, then to chrono, then add SOD.
-    // MJD 0 = 1858-11-17. MJD → Julian Day: JD = MJD + 2400000.5
-    // Use Julian Day Number arithmetic to get year/month/day.
-    let jd_whole = mjd_int + 2_400_001; // integer JD at noon of MJD day
-                                        // Algorithm from USNO (Fliegel & Van Flandern, 1968):
-    let l = jd_whole + 68_569;
-    let n = (4 * l) / 146_097;
-    let l2 = l - (146_097 * n + 3) / 4;
-    let i = (4_000 * (l2 + 1)) / 1_461_001;
-    let l3 = l2 - (1_461 * i) / 4 + 31;
-    let j = (80 * l3) / 2_447;
-    let day = l3 - (2_447 * j) / 80;
-    let l4 = j / 11;
-    let month = j + 2 - 12 * l4;
-    let year = 100 * (n - 49) + i + l4;
-
-    let sod_int = sod as u32;
-    let sod_nanos = ((sod - sod_int as f64) * 1e9).round() as u32;
-    let hour = sod_int / 3_600;
-    let minute = (sod_int % 3_600) / 60;
-    let second = sod_int % 60;
-
-    let naive = NaiveDate::from_ymd_opt(year as i32, month as u32, day as u32)
-        .and_then(|d| d.and_hms_nano_opt(hour, minute, second, sod_nanos))
-        .ok_or_else(|| FormatError::Format(format!("CPF 10: invalid date from MJD {mjd_int}")))?;
-    let dt: DateTime<ChronoUtc> = DateTime::from_naive_utc_and_offset(naive, ChronoUtc);
-    Time::<UTC>::try_from_chrono(dt)
-        .map_err(|e| FormatError::Format(format!("CPF 10: UTC conversion: {e}")))
+    mjd_epoch()
+        .checked_add_signed(chrono::Duration::try_days(mjd_int).unwrap_or(chrono::Duration::MAX))
+        .and_then(|date| crate::formats::civil::utc_from_day_seconds(date, sod))
+        .ok_or_else(|| {
+            FormatError::Format(format!(
+                "CPF 10: no UTC epoch at MJD {mjd_int}, {sod} s of day"
+            ))
+        })
 }
 
 #[cfg(test)]
diff --git a/src/formats/ilrs/crd.rs b/src/formats/ilrs/crd.rs
index b9a0c4d..9ee7ed7 100644
--- a/src/formats/ilrs/crd.rs
+++ b/src/formats/ilrs/crd.rs
@@ -385,15 +385,8 @@ fn parse_crd_impl(
                     // Build epoch directly from H4 date + SOD components to
                     // avoid floating-point precision loss in the JD round-trip.
                     let epoch = h4_date.and_then(|(y, mo, d)| {
-                        let whole = sod as i64;
-                        let subsec_nanos = ((sod - whole as f64) * 1_000_000_000.0).round() as u32;
-                        let hh = (whole / 3600) as u32;
-                        let mm = ((whole % 3600) / 60) as u32;
-                        let ss = (whole % 60) as u32;
-                        let naive = NaiveDate::from_ymd_opt(y, mo, d)
-                            .and_then(|nd| nd.and_hms_nano_opt(hh, mm, ss, subsec_nanos))?;
-                        let dt = DateTime::from_naive_utc_and_offset(naive, ChronoUtc);
-                        Time::<UTC>::try_from_chrono(dt).ok()
+                        let date = NaiveDate::from_ymd_opt(y, mo, d)?;
+                        crate::formats::civil::utc_from_day_seconds(date, sod)
                     });
                     let range_m = Meters::new(tof * SPEED_OF_LIGHT_M_S / 2.0);
 
-- 
2.43.0


From c9e42d5cecad06546986e6cbaa81505bf0f05180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:04 +0000
Subject: [PATCH 35/85] fix: RINEX NAV full-width fields read back, unencodable
 records refused

---
 src/formats/rinex/nav.rs | 136 +++++++++++++++++++++++----------------
 1 file changed, 79 insertions(+), 57 deletions(-)

diff --git a/src/formats/rinex/nav.rs b/src/formats/rinex/nav.rs
index 9411b30..0df7b23 100644
--- a/src/formats/rinex/nav.rs
+++ b/src/formats/rinex/nav.rs
@@ -28,7 +28,7 @@
 //! - IS-GPS-200. (current revision). Navstar GPS Space Segment / Navigation
 //!   User Interfaces.
 use super::{FileLocation, FormatError, ParseMode};
-use chrono::{DateTime, Datelike, NaiveDate, Timelike, Utc as ChronoUtc};
+use chrono::{DateTime, NaiveDate, Utc as ChronoUtc};
 use qtty::angular::Radians;
 use qtty::angular_rate::AngularRate;
 use qtty::length::Meters;
@@ -247,18 +247,19 @@ pub fn parse_rinex_nav_with_mode(text: &str, mode: ParseMode) -> Result<RinexNav
 
         // ── PRN ────────────────────────────────────────────────────────────
         let prn_result = if l0.starts_with('G') {
-            l0[1..3].trim().parse::<u8>()
+            l0.get(1..3)
         } else {
-            l0[..3].trim().parse::<u8>()
-        };
+            l0.get(..3)
+        }
+        .map(|s| s.trim().parse::<u8>());
         let prn = match prn_result {
-            Ok(p) if p > 0 => p,
-            Ok(_) | Err(_) => {
+            Some(Ok(p)) if p > 0 => p,
+            _ => {
                 if mode == ParseMode::Strict {
                     return Err(FormatError::located(
                         "RINEX 3.05 §6.3",
                         FileLocation::at_line(line_no_1),
-                        format!("invalid GPS PRN: {:?}", &l0[..l0.len().min(3)]),
+                        format!("invalid GPS PRN: {l0:?}"),
                     ));
                 }
                 i += 8;
@@ -267,8 +268,8 @@ pub fn parse_rinex_nav_with_mode(text: &str, mode: ParseMode) -> Result<RinexNav
         };
 
         // ── TOC + clock terms ──────────────────────────────────────────────
-        let rest = &l0[3..];
-        let toc_tokens: Vec<&str> = rest.split_whitespace().collect();
+        // The PRN check above leaves a character boundary at column 3.
+        let toc_tokens = split_fields(l0.get(3..).unwrap_or(""));
         let header_result = (|| -> Result<(Time<UTC>, f64, f64, f64), FormatError> {
             if toc_tokens.len() < 9 {
                 return Err(FormatError::located(
@@ -295,24 +296,26 @@ pub fn parse_rinex_nav_with_mode(text: &str, mode: ParseMode) -> Result<RinexNav
             let h = parse_int(toc_tokens[3], "hour")?;
             let mi = parse_int(toc_tokens[4], "minute")?;
             let sec_f = parse_d(toc_tokens[5], line_no_1, "second")?;
-            let sec_i = sec_f as u64;
-            let nanos = ((sec_f - sec_i as f64) * 1e9).round() as u32;
-            let toc = NaiveDate::from_ymd_opt(y as i32, mo as u32, d as u32)
-                .and_then(|nd| nd.and_hms_nano_opt(h as u32, mi as u32, sec_i as u32, nanos))
-                .and_then(|naive| {
-                    let dt = DateTime::from_naive_utc_and_offset(naive, ChronoUtc);
-                    Time::<UTC>::try_from_chrono(dt).ok()
-                })
-                .ok_or_else(|| {
-                    FormatError::located(
-                        "RINEX 3.05 §6.3",
-                        FileLocation::at_line(line_no_1),
-                        format!(
-                            "invalid TOC date/time: {}-{:02}-{:02} {:02}:{:02}:{:.3}",
-                            toc_tokens[0], mo, d, h, mi, sec_f
-                        ),
-                    )
-                })?;
+            let toc = (|| {
+                crate::formats::civil::utc_from_civil(
+                    y.try_into().ok()?,
+                    mo.try_into().ok()?,
+                    d.try_into().ok()?,
+                    h.try_into().ok()?,
+                    mi.try_into().ok()?,
+                    sec_f,
+                )
+            })()
+            .ok_or_else(|| {
+                FormatError::located(
+                    "RINEX 3.05 §6.3",
+                    FileLocation::at_line(line_no_1),
+                    format!(
+                        "invalid TOC date/time: {}-{:02}-{:02} {:02}:{:02}:{:.3}",
+                        toc_tokens[0], mo, d, h, mi, sec_f
+                    ),
+                )
+            })?;
             let af0 = parse_d(toc_tokens[6], line_no_1, "af0")?;
             let af1 = parse_d(toc_tokens[7], line_no_1, "af1")?;
             let af2 = parse_d(toc_tokens[8], line_no_1, "af2")?;
@@ -333,7 +336,7 @@ pub fn parse_rinex_nav_with_mode(text: &str, mode: ParseMode) -> Result<RinexNav
         let parse_body = |idx: usize, expected: usize| -> Result<Vec<f64>, FormatError> {
             let (ln, text) = collected[i + idx];
             let vals = collect_floats(text, ln + 1)?;
-            if vals.len() < expected && mode == ParseMode::Strict {
+            if vals.len() < expected {
                 return Err(FormatError::located(
                     "RINEX 3.05 §6.5",
                     FileLocation::at_line(ln + 1),
@@ -444,20 +447,42 @@ fn parse_d(s: &str, line: usize, field: &str) -> Result<f64, FormatError> {
         })
 }
 
+/// Split a line into numbers. Full-width D19.12 fields leave no blank between
+/// each other, so a sign that follows a digit also starts a field.
+fn split_fields(line: &str) -> Vec<&str> {
+    let mut out = Vec::new();
+    for token in line.split_whitespace() {
+        let mut start = 0;
+        for (i, pair) in token.as_bytes().windows(2).enumerate() {
+            if (pair[0].is_ascii_digit() || pair[0] == b'.') && matches!(pair[1], b'+' | b'-') {
+                out.push(&token[start..=i]);
+                start = i + 1;
+            }
+        }
+        out.push(&token[start..]);
+    }
+    out
+}
+
 fn collect_floats(line: &str, line_no: usize) -> Result<Vec<f64>, FormatError> {
-    line.split_whitespace()
+    split_fields(line)
+        .into_iter()
         .map(|s| parse_d(s, line_no, "body"))
         .collect()
 }
 
 /// Format an `f64` in Fortran D-notation (e.g. `1.234567890123456E+02` →
 /// `1.234567890123456D+02`), as used by RINEX NAV body lines.
-fn fmt_d(v: f64) -> String {
-    if !v.is_finite() {
-        return format!("{:>19}", "0.000000000000000D+00");
+fn fmt_d(v: f64) -> Result<String, FormatError> {
+    // D19.12 holds two exponent digits; smaller magnitudes print as zero.
+    let v = if v.abs() < 1e-99 { 0.0 } else { v };
+    let s = format!("{v:19.12E}").replace('E', "D");
+    if !v.is_finite() || s.len() > 19 || v.abs() > 9e99 {
+        return Err(FormatError::Format(format!(
+            "rinex_nav: {v:e} does not fit a D19.12 field"
+        )));
     }
-    let s = format!("{:19.12E}", v);
-    s.replace('E', "D")
+    Ok(s)
 }
 
 /// Write a RINEX 3.04 NAV file matching the layout consumed by
@@ -511,35 +536,32 @@ pub fn write_rinex_nav<W: Write>(w: &mut W, file: &RinexNavFile) -> Result<(), F
     header_line(w, "", "END OF HEADER")?;
 
     for r in &file.gps {
-        let dt = r
-            .toc
-            .try_to_chrono()
+        if !(1..=99).contains(&r.prn) {
+            return Err(FormatError::Format(format!(
+                "rinex_nav: invalid GPS PRN {}",
+                r.prn
+            )));
+        }
+        let toc = crate::formats::civil::civil_from_utc(r.toc, 0)
             .map_err(|e| FormatError::Format(format!("rinex_nav: TOC to chrono failed: {e}")))?;
-        let sec = dt.second() as f64 + dt.nanosecond() as f64 / 1e9;
-        // Line 0: PRN + TOC + 3 clock terms.
         writeln!(
             w,
             "G{:02} {:04} {:02} {:02} {:02} {:02} {:02}{}{}{}",
             r.prn,
-            dt.year(),
-            dt.month(),
-            dt.day(),
-            dt.hour(),
-            dt.minute(),
-            sec as u32,
-            fmt_d(r.af0.value()),
-            fmt_d(r.af1),
-            fmt_d(r.af2),
+            toc.year,
+            toc.month,
+            toc.day,
+            toc.hour,
+            toc.minute,
+            toc.second as u32,
+            fmt_d(r.af0.value())?,
+            fmt_d(r.af1)?,
+            fmt_d(r.af2)?,
         )?;
-        let cont = |w: &mut W, vs: [f64; 4]| -> std::io::Result<()> {
-            writeln!(
-                w,
-                "    {}{}{}{}",
-                fmt_d(vs[0]),
-                fmt_d(vs[1]),
-                fmt_d(vs[2]),
-                fmt_d(vs[3])
-            )
+        let cont = |w: &mut W, vs: [f64; 4]| -> Result<(), FormatError> {
+            let [a, b, c, d] = vs.map(fmt_d);
+            writeln!(w, "    {}{}{}{}", a?, b?, c?, d?)?;
+            Ok(())
         };
         cont(w, [r.iode, r.crs.value(), r.delta_n.value(), r.m0.value()])?;
         cont(w, [r.cuc.value(), r.e, r.cus.value(), r.sqrt_a])?;
-- 
2.43.0


From 9a9d80b2a21052cb78cff751f0b412d93d6514d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:04 +0000
Subject: [PATCH 36/85] fix: RINEX OBS epochs round with carry, event records
 skipped, unencodable data refused

---
 src/formats/rinex/obs.rs | 107 +++++++++++++++++++++++++++------------
 1 file changed, 75 insertions(+), 32 deletions(-)

diff --git a/src/formats/rinex/obs.rs b/src/formats/rinex/obs.rs
index c4206ff..f434307 100644
--- a/src/formats/rinex/obs.rs
+++ b/src/formats/rinex/obs.rs
@@ -30,7 +30,6 @@
 //! - Misra, P., & Enge, P. (2012). Global Positioning System: Signals,
 //!   Measurements, and Performance (2nd ed.). Ganga-Jamuna Press.
 use super::FormatError;
-use chrono::{DateTime, Datelike, NaiveDate, Timelike, Utc as ChronoUtc};
 use qtty::length::Meters;
 use qtty::time::Seconds;
 use std::collections::HashMap;
@@ -82,10 +81,17 @@ pub fn read_rinex_obs<R: Read>(rdr: R) -> Result<RinexObs, FormatError> {
         match label {
             "MARKER NAME" => marker = body.trim().to_string(),
             "APPROX POSITION XYZ" => {
-                let parts: Vec<f64> = body
+                let mut parts: Vec<f64> = body
                     .split_whitespace()
                     .filter_map(|s| s.parse().ok())
                     .collect();
+                if parts.len() != 3 {
+                    // 3F14.4: adjacent fields may touch.
+                    parts = [0..14, 14..28, 28..42]
+                        .into_iter()
+                        .filter_map(|r| body.get(r)?.trim().parse().ok())
+                        .collect();
+                }
                 if parts.len() == 3 {
                     approx_xyz_m = Some([
                         Meters::new(parts[0]),
@@ -110,8 +116,13 @@ pub fn read_rinex_obs<R: Read>(rdr: R) -> Result<RinexObs, FormatError> {
                 if !sys.is_ascii_alphabetic() {
                     continue;
                 }
-                let count: usize = body[1..6].trim().parse().unwrap_or(0);
-                let mut types: Vec<String> = body[7..]
+                let count: usize = body
+                    .get(1..6)
+                    .and_then(|s| s.trim().parse().ok())
+                    .unwrap_or(0);
+                let mut types: Vec<String> = body
+                    .get(7..)
+                    .unwrap_or("")
                     .split_whitespace()
                     .map(|s| s.to_string())
                     .collect();
@@ -152,17 +163,21 @@ pub fn read_rinex_obs<R: Read>(rdr: R) -> Result<RinexObs, FormatError> {
         let hour: u32 = parts[4].parse().unwrap_or(0);
         let minute: u32 = parts[5].parse().unwrap_or(0);
         let second_f: f64 = parts[6].parse().unwrap_or(0.0);
-        let second_int = second_f as u32;
-        let nanos = ((second_f - second_int as f64) * 1e9).round() as u32;
-        let naive = NaiveDate::from_ymd_opt(year, month, day)
-            .and_then(|d| d.and_hms_nano_opt(hour, minute, second_int, nanos))
-            .ok_or_else(|| FormatError::Format("rinex_obs: invalid epoch date".into()))?;
         let epoch_time =
-            Time::<UTC>::try_from_chrono(DateTime::from_naive_utc_and_offset(naive, ChronoUtc))
-                .map_err(|e| {
-                    FormatError::Format(format!("rinex_obs: epoch UTC conversion: {e}"))
-                })?;
+            crate::formats::civil::utc_from_civil(year, month, day, hour, minute, second_f)
+                .ok_or_else(|| FormatError::Format("rinex_obs: invalid epoch date".into()))?;
+
         let n_sat: usize = parts[8].parse().unwrap_or(0);
+        if parts[7].parse::<u8>().is_ok_and(|flag| flag > 1) {
+            // An event: the announced lines are header or cycle-slip records.
+            for _ in 0..n_sat {
+                line.clear();
+                if br.read_line(&mut line)? == 0 {
+                    break;
+                }
+            }
+            continue;
+        }
 
         let mut sats = HashMap::new();
         for _ in 0..n_sat {
@@ -171,10 +186,10 @@ pub fn read_rinex_obs<R: Read>(rdr: R) -> Result<RinexObs, FormatError> {
                 break;
             }
             let row = line.trim_end();
-            if row.len() < 3 {
+            let (Some(sat), Some(payload)) = (row.get(..3), row.get(3..)) else {
                 continue;
-            }
-            let sat = row[..3].to_string();
+            };
+            let sat = sat.to_string();
             let sys = sat.chars().next().unwrap_or(' ');
             let types = match obs_types.get(&sys) {
                 Some(t) => t.clone(),
@@ -183,14 +198,13 @@ pub fn read_rinex_obs<R: Read>(rdr: R) -> Result<RinexObs, FormatError> {
             let mut vals: HashMap<String, f64> = HashMap::new();
             // RINEX 3: each observable occupies 16 columns (F14.3 + 2 status
             // chars). We slice that and parse loosely.
-            let payload = &row[3..];
             for (i, ty) in types.iter().enumerate() {
                 let start = i * 16;
                 if start >= payload.len() {
                     break;
                 }
                 let end = (start + 14).min(payload.len());
-                let raw = payload[start..end].trim();
+                let raw = payload.get(start..end).unwrap_or("").trim();
                 if raw.is_empty() {
                     continue;
                 }
@@ -257,15 +271,30 @@ pub fn read_rinex_obs<R: Read>(rdr: R) -> Result<RinexObs, FormatError> {
 /// assert_eq!(parsed.epochs.len(), obs.epochs.len());
 /// ```
 pub fn write_rinex_obs<W: Write>(w: &mut W, obs: &RinexObs) -> Result<(), FormatError> {
-    fn header_line(w: &mut impl Write, body: &str, label: &str) -> std::io::Result<()> {
-        let body = if body.len() > 60 { &body[..60] } else { body };
-        writeln!(w, "{:<60}{}", body, label)
+    fn fits(ok: bool, what: impl FnOnce() -> String) -> Result<(), FormatError> {
+        if ok {
+            return Ok(());
+        }
+        Err(FormatError::Format(format!("rinex_obs: {}", what())))
+    }
+    fn plain(s: &str) -> bool {
+        s.bytes().all(|b| (b' '..=b'~').contains(&b)) && s.trim() == s
+    }
+    fn code(s: &str) -> bool {
+        (1..=3).contains(&s.len()) && s.bytes().all(|b| b.is_ascii_graphic())
+    }
+    fn header_line(w: &mut impl Write, body: &str, label: &str) -> Result<(), FormatError> {
+        // A longer body would push the label out of column 61.
+        fits(body.len() <= 60, || format!("{label} too long: {body:?}"))?;
+        writeln!(w, "{:<60}{}", body, label)?;
+        Ok(())
     }
     header_line(
         w,
         "     3.04           OBSERVATION DATA    M (MIXED)",
         "RINEX VERSION / TYPE",
     )?;
+    fits(plain(&obs.marker), || format!("marker {:?}", obs.marker))?;
     header_line(w, &obs.marker, "MARKER NAME")?;
     if let Some(xyz) = &obs.approx_xyz_m {
         let body = format!(
@@ -274,12 +303,17 @@ pub fn write_rinex_obs<W: Write>(w: &mut W, obs: &RinexObs) -> Result<(), Format
             xyz[1].value(),
             xyz[2].value()
         );
+        fits(body.len() == 42, || format!("approximate position {body}"))?;
         header_line(w, &body, "APPROX POSITION XYZ")?;
     }
     let mut systems: Vec<&char> = obs.obs_types.keys().collect();
     systems.sort();
     for sys in systems {
         let types = &obs.obs_types[sys];
+        fits(
+            sys.is_ascii_alphabetic() && types.iter().all(|t| code(t)),
+            || format!("observation types {sys} {types:?}"),
+        )?;
         let mut body = format!("{}{:>5}", sys, types.len());
         for (i, t) in types.iter().enumerate() {
             // RINEX 3: 13 obs codes per header line, 4 chars each.
@@ -298,20 +332,17 @@ pub fn write_rinex_obs<W: Write>(w: &mut W, obs: &RinexObs) -> Result<(), Format
     header_line(w, "", "END OF HEADER")?;
 
     for ep in &obs.epochs {
-        let dt = ep
-            .time
-            .try_to_chrono()
+        let t = crate::formats::civil::civil_from_utc(ep.time, 7)
             .map_err(|e| FormatError::Format(format!("rinex_obs: epoch to chrono failed: {e}")))?;
-        let second = dt.second() as f64 + dt.nanosecond() as f64 / 1e9;
         writeln!(
             w,
             "> {:4} {:02} {:02} {:02} {:02} {:10.7}  0 {:>2}",
-            dt.year(),
-            dt.month(),
-            dt.day(),
-            dt.hour(),
-            dt.minute(),
-            second,
+            t.year,
+            t.month,
+            t.day,
+            t.hour,
+            t.minute,
+            t.second,
             ep.satellites.len(),
         )?;
         let mut sats: Vec<&String> = ep.satellites.keys().collect();
@@ -320,10 +351,22 @@ pub fn write_rinex_obs<W: Write>(w: &mut W, obs: &RinexObs) -> Result<(), Format
             let vals = &ep.satellites[sat];
             let sys = sat.chars().next().unwrap_or(' ');
             let types = obs.obs_types.get(&sys).cloned().unwrap_or_default();
+            fits(sat.len() == 3 && plain(sat), || {
+                format!("satellite {sat:?} does not fit three columns")
+            })?;
+            fits(vals.keys().all(|ty| types.contains(ty)), || {
+                format!("{sat} has observations of types not declared for {sys}")
+            })?;
             let mut row = format!("{:<3}", sat);
             for ty in &types {
                 match vals.get(ty) {
-                    Some(v) => row.push_str(&format!("{:14.3}  ", v)),
+                    Some(v) => {
+                        let field = format!("{v:14.3}  ");
+                        fits(field.len() == 16, || {
+                            format!("{sat} {ty} = {v} does not fit F14.3")
+                        })?;
+                        row.push_str(&field);
+                    }
                     None => row.push_str(&" ".repeat(16)),
                 }
             }
-- 
2.43.0


From c05cf35f4979e4dcf72aa8be162f6c1aab72a072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:04 +0000
Subject: [PATCH 37/85] fix: RINEX DORIS and SCK readers check bounds before
 slicing

---
 src/formats/rinex/doris.rs | 37 +++++++++++++++++++------------------
 src/formats/sck.rs         |  1 +
 2 files changed, 20 insertions(+), 18 deletions(-)

diff --git a/src/formats/rinex/doris.rs b/src/formats/rinex/doris.rs
index 988fde4..51e9fe9 100644
--- a/src/formats/rinex/doris.rs
+++ b/src/formats/rinex/doris.rs
@@ -93,17 +93,20 @@ fn parse_doris<R: Read>(reader: R) -> Result<RinexDoris, FormatError> {
             if l.len() < 61 {
                 continue;
             }
-            let (data, label) = l.split_at(60);
+            let (Some(data), Some(label)) = (l.get(..60), l.get(60..)) else {
+                continue;
+            };
+            let field = |r: std::ops::Range<usize>| data.get(r).unwrap_or("").trim().to_string();
             let label = label.trim();
             match label {
-                "RINEX VERSION / TYPE" => out.header.version = data[..9].trim().to_string(),
+                "RINEX VERSION / TYPE" => out.header.version = field(0..9),
                 "PGM / RUN BY / DATE" => {
-                    out.header.program = data[..20].trim().to_string();
-                    out.header.agency = data[20..40].trim().to_string();
+                    out.header.program = field(0..20);
+                    out.header.agency = field(20..40);
                 }
                 "MARKER NAME" => out.header.marker_name = data.trim().to_string(),
-                "ANT # / TYPE" => out.header.antenna_type = data[20..].trim().to_string(),
-                "REC # / TYPE / VERS" => out.header.receiver_type = data[20..40].trim().to_string(),
+                "ANT # / TYPE" => out.header.antenna_type = field(20..60),
+                "REC # / TYPE / VERS" => out.header.receiver_type = field(20..40),
                 "END OF HEADER" => in_header = false,
                 _ => {}
             }
@@ -128,16 +131,12 @@ fn parse_doris<R: Read>(reader: R) -> Result<RinexDoris, FormatError> {
             continue;
         }
         let sat_id = if l.len() >= 3 && l.starts_with('D') {
-            Some(l[0..3].to_string())
+            l.get(0..3).map(str::to_string)
         } else {
             current_sat.clone()
         };
         if let (Some(mjd), Some(sat)) = (current_obs_epoch, sat_id) {
-            let raw = if l.len() > 3 {
-                l[3..].trim().to_string()
-            } else {
-                String::new()
-            };
+            let raw = l.get(3..).unwrap_or("").trim().to_string();
             if raw.is_empty() {
                 out.unsupported_obs += 1;
             }
@@ -156,13 +155,15 @@ fn parse_doris<R: Read>(reader: R) -> Result<RinexDoris, FormatError> {
 #[cfg(feature = "doris")]
 fn date_to_mjd(y: i32, mo: u32, d: u32, h: u32, mi: u32, s: f64) -> f64 {
     // Standard civil → MJD conversion (Meeus §7).
-    let (yy, mm) = if mo <= 2 { (y - 1, mo + 12) } else { (y, mo) };
-    let a = (yy as f64 / 100.0).floor();
+    let (y, mo) = (f64::from(y), f64::from(mo));
+    let (yy, mm) = if mo <= 2.0 {
+        (y - 1.0, mo + 12.0)
+    } else {
+        (y, mo)
+    };
+    let a = (yy / 100.0).floor();
     let b = 2.0 - a + (a / 4.0).floor();
-    let jd = (365.25 * (yy as f64 + 4716.0)).floor()
-        + (30.6001 * (mm as f64 + 1.0)).floor()
-        + d as f64
-        + b
+    let jd = (365.25 * (yy + 4716.0)).floor() + (30.6001 * (mm + 1.0)).floor() + d as f64 + b
         - 1524.5
         + (h as f64 + mi as f64 / 60.0 + s / 3600.0) / 24.0;
     jd - 2_400_000.5
diff --git a/src/formats/sck.rs b/src/formats/sck.rs
index e5bad07..54dd652 100644
--- a/src/formats/sck.rs
+++ b/src/formats/sck.rs
@@ -96,6 +96,7 @@ pub fn parse_sck(bytes: &[u8]) -> Result<SckKernel, FormatError> {
     let stride = 2 + 3 * (header.ncoeff as usize);
     let expected = stride
         .checked_mul(header.record_count as usize)
+        .filter(|words| words.checked_mul(8).is_some())
         .ok_or_else(|| {
             FormatError::located(
                 "SCK v1 §payload",
-- 
2.43.0


From c5750a7a5fd6b492e0383544a8d9202483fbeee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:18 +0000
Subject: [PATCH 38/85] fix: EOP reader skips lines whose day number is not
 finite

---
 src/formats/iers/eop.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/formats/iers/eop.rs b/src/formats/iers/eop.rs
index 37e4b8e..38e9e1c 100644
--- a/src/formats/iers/eop.rs
+++ b/src/formats/iers/eop.rs
@@ -85,9 +85,10 @@ pub fn read_eop_c04<R: Read>(rdr: R) -> Result<Vec<EopRecord>, FormatError> {
         {
             continue;
         }
-        let mjd_raw: f64 = match parts[3].parse() {
-            Ok(v) => v,
-            Err(_) => continue,
+        let mjd_raw: f64 = match parts[3].parse::<f64>() {
+            // beyond this the day count cannot be represented as an instant
+            Ok(v) if v.abs() < 1e9 => v,
+            _ => continue,
         };
         let mjd = match ModifiedJulianDate::<UTC>::try_new(Day::new(mjd_raw)) {
             Ok(m) => m,
-- 
2.43.0


From 020c0d3a75641dd807d9ab8baf7db1b686157f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:33 +0000
Subject: [PATCH 39/85] fix: DAF, SPK and CK readers check every record, count
 and word address against the file

---
 src/formats/spice/ck.rs      |   3 +-
 src/formats/spice/daf.rs     | 237 ++++++++++++++++++-----------------
 src/formats/spice/segment.rs |  14 ++-
 3 files changed, 135 insertions(+), 119 deletions(-)

diff --git a/src/formats/spice/ck.rs b/src/formats/spice/ck.rs
index f2b7b22..e6d60fc 100644
--- a/src/formats/spice/ck.rs
+++ b/src/formats/spice/ck.rs
@@ -20,7 +20,7 @@
 
 use std::path::Path;
 
-use super::daf::DafRaw;
+use super::daf::{ensure_word_range, DafRaw};
 use super::SpiceError;
 
 /// A single CK attitude record (Type 1).
@@ -203,6 +203,7 @@ fn read_type1_segment(
             "CK segment has an invalid word range".to_string(),
         ));
     }
+    ensure_word_range(daf.bytes(), start_word, end_word)?;
     let n_records_raw = daf.read_f64_at_word(end_word);
     if !n_records_raw.is_finite() || n_records_raw < 1.0 {
         return Err(SpiceError::FormatParse(format!(
diff --git a/src/formats/spice/daf.rs b/src/formats/spice/daf.rs
index b665dd5..c31f01d 100644
--- a/src/formats/spice/daf.rs
+++ b/src/formats/spice/daf.rs
@@ -116,27 +116,11 @@ impl Daf {
             )));
         }
 
-        let nd_le = read_i32_le(data, 8);
-        let ni_le = read_i32_le(data, 12);
-        let nd_be = read_i32_be(data, 8);
-        let ni_be = read_i32_be(data, 12);
-
-        let (le, nd, ni) = if nd_le > 0 && nd_le <= 100 && ni_le > 0 && ni_le <= 100 {
-            (true, nd_le as usize, ni_le as usize)
-        } else if nd_be > 0 && nd_be <= 100 && ni_be > 0 && ni_be <= 100 {
-            (false, nd_be as usize, ni_be as usize)
-        } else {
-            return Err(SpiceError::FormatParse(format!(
-                "Cannot determine DAF endianness: ND/NI LE=({},{}), BE=({},{})",
-                nd_le, ni_le, nd_be, ni_be
-            )));
-        };
+        let (le, nd, ni) = detect_layout(data)?;
 
         let read_i32 = if le { read_i32_le } else { read_i32_be };
         let read_f64 = if le { read_f64_le } else { read_f64_be };
 
-        let fward = read_i32(data, 76) as usize;
-
         if nd != 2 || ni != 6 {
             return Err(SpiceError::FormatParse(format!(
                 "Expected SPK format (ND=2, NI=6), got ND={}, NI={}",
@@ -147,54 +131,28 @@ impl Daf {
         let ss = nd + ni.div_ceil(2);
 
         let mut summaries = Vec::new();
-        let mut rec = fward;
-
-        while rec > 0 {
-            let rec_offset = (rec - 1) * 1024;
-            if rec_offset + 1024 > data.len() {
-                return Err(SpiceError::FormatParse(format!(
-                    "Summary record {} extends past EOF",
-                    rec
-                )));
-            }
-
-            let next = read_f64(data, rec_offset) as i64 as usize;
-            let _prev = read_f64(data, rec_offset + 8);
-            let nsum = read_f64(data, rec_offset + 16) as usize;
-
-            for i in 0..nsum {
-                let off = rec_offset + 24 + i * ss * 8;
-                if off + ss * 8 > data.len() {
-                    return Err(SpiceError::FormatParse(format!(
-                        "Summary {} in record {} extends past EOF",
-                        i, rec
-                    )));
-                }
-
-                let start_et = read_f64(data, off);
-                let end_et = read_f64(data, off + 8);
-
-                let int_off = off + nd * 8;
-                let target_id = read_i32(data, int_off);
-                let center_id = read_i32(data, int_off + 4);
-                let frame_id = read_i32(data, int_off + 8);
-                let data_type = read_i32(data, int_off + 12);
-                let start_word = read_i32(data, int_off + 16) as usize;
-                let end_word = read_i32(data, int_off + 20) as usize;
-
-                summaries.push(Summary {
-                    start_et,
-                    end_et,
-                    target_id,
-                    center_id,
-                    frame_id,
-                    data_type,
-                    start_word,
-                    end_word,
-                });
-            }
-
-            rec = next;
+        for off in summary_offsets(data, le, ss)? {
+            let start_et = read_f64(data, off);
+            let end_et = read_f64(data, off + 8);
+
+            let int_off = off + nd * 8;
+            let target_id = read_i32(data, int_off);
+            let center_id = read_i32(data, int_off + 4);
+            let frame_id = read_i32(data, int_off + 8);
+            let data_type = read_i32(data, int_off + 12);
+            let start_word = word_address(read_i32(data, int_off + 16))?;
+            let end_word = word_address(read_i32(data, int_off + 20))?;
+
+            summaries.push(Summary {
+                start_et,
+                end_et,
+                target_id,
+                center_id,
+                frame_id,
+                data_type,
+                start_word,
+                end_word,
+            });
         }
 
         Ok(Daf { nd, ni, summaries })
@@ -227,61 +185,25 @@ impl DafRaw {
             )));
         }
 
-        let nd_le = read_i32_le(&data, 8);
-        let ni_le = read_i32_le(&data, 12);
-        let nd_be = read_i32_be(&data, 8);
-        let ni_be = read_i32_be(&data, 12);
-
-        let (le, nd, ni) = if nd_le > 0 && nd_le <= 100 && ni_le > 0 && ni_le <= 100 {
-            (true, nd_le as usize, ni_le as usize)
-        } else if nd_be > 0 && nd_be <= 100 && ni_be > 0 && ni_be <= 100 {
-            (false, nd_be as usize, ni_be as usize)
-        } else {
+        let (le, nd, ni) = detect_layout(&data)?;
+        if ni < 2 {
             return Err(SpiceError::FormatParse(format!(
-                "Cannot determine DAF endianness: ND/NI LE=({},{}), BE=({},{})",
-                nd_le, ni_le, nd_be, ni_be
+                "DAF summaries need at least two integer components, got NI={ni}"
             )));
-        };
+        }
 
         let read_i32 = if le { read_i32_le } else { read_i32_be };
         let read_f64 = if le { read_f64_le } else { read_f64_be };
-        let fward = read_i32(&data, 76) as usize;
         let ss = nd + ni.div_ceil(2);
 
         let mut raw_summaries = Vec::new();
-        let mut rec = fward;
-        while rec > 0 {
-            let rec_offset = (rec - 1) * 1024;
-            if rec_offset + 1024 > data.len() {
-                return Err(SpiceError::FormatParse(format!(
-                    "Summary record {} extends past EOF",
-                    rec
-                )));
-            }
-
-            let next = read_f64(&data, rec_offset) as i64 as usize;
-            let nsum = read_f64(&data, rec_offset + 16) as usize;
-            for i in 0..nsum {
-                let off = rec_offset + 24 + i * ss * 8;
-                if off + ss * 8 > data.len() {
-                    return Err(SpiceError::FormatParse(format!(
-                        "Summary {} in record {} extends past EOF",
-                        i, rec
-                    )));
-                }
-
-                let mut doubles = Vec::with_capacity(nd);
-                for j in 0..nd {
-                    doubles.push(read_f64(&data, off + j * 8));
-                }
-                let int_off = off + nd * 8;
-                let mut integers = Vec::with_capacity(ni);
-                for j in 0..ni {
-                    integers.push(read_i32(&data, int_off + j * 4));
-                }
-                raw_summaries.push(RawSummary { doubles, integers });
-            }
-            rec = next;
+        for off in summary_offsets(&data, le, ss)? {
+            let doubles = (0..nd).map(|j| read_f64(&data, off + j * 8)).collect();
+            let int_off = off + nd * 8;
+            let integers: Vec<i32> = (0..ni).map(|j| read_i32(&data, int_off + j * 4)).collect();
+            word_address(integers[ni - 2])?;
+            word_address(integers[ni - 1])?;
+            raw_summaries.push(RawSummary { doubles, integers });
         }
 
         Ok(Self {
@@ -306,6 +228,97 @@ impl DafRaw {
     }
 }
 
+/// Determine the byte order and the summary layout (ND, NI) of a DAF file.
+fn detect_layout(data: &[u8]) -> Result<(bool, usize, usize), SpiceError> {
+    let nd_le = read_i32_le(data, 8);
+    let ni_le = read_i32_le(data, 12);
+    let nd_be = read_i32_be(data, 8);
+    let ni_be = read_i32_be(data, 12);
+
+    if nd_le > 0 && nd_le <= 100 && ni_le > 0 && ni_le <= 100 {
+        Ok((true, nd_le as usize, ni_le as usize))
+    } else if nd_be > 0 && nd_be <= 100 && ni_be > 0 && ni_be <= 100 {
+        Ok((false, nd_be as usize, ni_be as usize))
+    } else {
+        Err(SpiceError::FormatParse(format!(
+            "Cannot determine DAF endianness: ND/NI LE=({},{}), BE=({},{})",
+            nd_le, ni_le, nd_be, ni_be
+        )))
+    }
+}
+
+/// Byte offsets of every summary, in file order.
+///
+/// Follows the chain of summary records and refuses chains that leave the
+/// file, do not terminate, or announce more summaries than a record can hold.
+fn summary_offsets(data: &[u8], le: bool, ss: usize) -> Result<Vec<usize>, SpiceError> {
+    const RECORD_BYTES: usize = 1024;
+    let read_f64 = if le { read_f64_le } else { read_f64_be };
+    let fward = if le {
+        read_i32_le(data, 76)
+    } else {
+        read_i32_be(data, 76)
+    };
+    let max_records = data.len() / RECORD_BYTES;
+
+    let mut offsets = Vec::new();
+    let mut visited = 0_usize;
+    let mut rec = f64::from(fward);
+    while rec != 0.0 {
+        if !(rec >= 1.0 && rec.fract() == 0.0) {
+            return Err(SpiceError::FormatParse(format!(
+                "Invalid DAF summary record number {rec}"
+            )));
+        }
+        if rec > max_records as f64 {
+            return Err(SpiceError::FormatParse(format!(
+                "Summary record {rec} extends past EOF"
+            )));
+        }
+        visited += 1;
+        if visited > max_records {
+            return Err(SpiceError::FormatParse(
+                "DAF summary record chain does not terminate".to_string(),
+            ));
+        }
+
+        let rec_offset = (rec as usize - 1) * RECORD_BYTES;
+        let nsum = read_f64(data, rec_offset + 16);
+        let capacity = (RECORD_BYTES - 24) / (ss * 8);
+        if !(nsum >= 0.0 && nsum.fract() == 0.0 && nsum <= capacity as f64) {
+            return Err(SpiceError::FormatParse(format!(
+                "Invalid summary count {nsum} in record {rec}"
+            )));
+        }
+        offsets.extend((0..nsum as usize).map(|i| rec_offset + 24 + i * ss * 8));
+
+        rec = read_f64(data, rec_offset);
+    }
+    Ok(offsets)
+}
+
+/// Convert a stored word address, refusing negative values.
+fn word_address(value: i32) -> Result<usize, SpiceError> {
+    usize::try_from(value).map_err(|_| {
+        SpiceError::FormatParse(format!("DAF summary holds a negative word address {value}"))
+    })
+}
+
+/// Check that the 1-based word range `start..=end` lies inside the file.
+pub(crate) fn ensure_word_range(
+    data: &[u8],
+    start: usize,
+    end: usize,
+) -> Result<(), SpiceError> {
+    if start == 0 || end < start || end > data.len() / 8 {
+        return Err(SpiceError::FormatParse(format!(
+            "segment word range [{start}..{end}] lies outside the file ({} words)",
+            data.len() / 8
+        )));
+    }
+    Ok(())
+}
+
 #[inline]
 fn read_i32_le(data: &[u8], offset: usize) -> i32 {
     i32::from_le_bytes(data[offset..offset + 4].try_into().unwrap())
diff --git a/src/formats/spice/segment.rs b/src/formats/spice/segment.rs
index 0a2fb55..c213b88 100644
--- a/src/formats/spice/segment.rs
+++ b/src/formats/spice/segment.rs
@@ -46,7 +46,7 @@
 //! Velocity for Type 2 is `dPos/dtau / RADIUS` (in km/s).
 
 use super::error::SpiceError;
-use crate::formats::spice::daf::{Daf, Summary};
+use crate::formats::spice::daf::{ensure_word_range, Daf, Summary};
 
 /// A typed SPK segment.
 #[derive(Debug, Clone)]
@@ -408,6 +408,7 @@ fn read_chebyshev(
     components: u8,
 ) -> Result<ChebSegment, SpiceError> {
     let end = summary.end_word;
+    ensure_word_range(file_data, summary.start_word, end)?;
     if end < 4 {
         return Err(SpiceError::Parse {
             message: format!("segment trailer at end_word={end} is too small"),
@@ -452,7 +453,7 @@ fn read_chebyshev(
             message: format!("segment record count overflow: n_records={n_records} rsize={rsize}"),
         })?;
     let data_start_word = summary.start_word;
-    if data_start_word + total - 1 > summary.end_word {
+    if data_start_word + total - 1 > summary.end_word - 4 {
         return Err(SpiceError::Parse {
             message: format!(
                 "segment data window [{}..{}] does not fit in summary [{}..{}]",
@@ -501,6 +502,7 @@ fn read_discrete_states(
             message: format!("SPK Type {data_type} segment too short: {n_words} words"),
         });
     }
+    ensure_word_range(file_data, summary.start_word, summary.end_word)?;
     let mut words = Vec::with_capacity(n_words);
     for i in 0..n_words {
         words.push(daf.read_f64_at_word(file_data, summary.start_word + i));
@@ -526,12 +528,12 @@ fn read_discrete_states(
         message: format!("SPK Type {data_type} state count overflow: {n_records}"),
     })?;
     let epoch_start = state_len;
-    let epoch_end = epoch_start + n_records;
-    if epoch_end + 2 > words.len() {
+    if n_records > words.len() / 7 || state_len + n_records + 2 > words.len() {
         return Err(SpiceError::Parse {
             message: format!("SPK Type {data_type} payload too short for {n_records} records"),
         });
     }
+    let epoch_end = epoch_start + n_records;
     let states = words[..state_len].to_vec();
     let epochs = words[epoch_start..epoch_end].to_vec();
     let epoch_directory = words[epoch_end..words.len() - 2].to_vec();
@@ -554,7 +556,7 @@ fn read_discrete_states(
     let interpolation_size = match data_type {
         9 => {
             let degree = descriptor;
-            if degree == 0 || degree + 1 > n_records || degree > 31 {
+            if degree == 0 || degree > 31 || degree + 1 > n_records {
                 return Err(SpiceError::Parse {
                     message: format!(
                         "SPK Type 9 invalid Lagrange degree {degree} for {n_records} records"
@@ -564,7 +566,7 @@ fn read_discrete_states(
             degree
         }
         13 => {
-            let samples = descriptor + 1;
+            let samples = descriptor.saturating_add(1);
             if samples < 2 || samples > n_records || samples > 16 {
                 return Err(SpiceError::Parse {
                     message: format!(
-- 
2.43.0


From 7136789af43eae5ddbad9d51eef03ccb50dd4b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:10 +0000
Subject: [PATCH 40/85] fix: DAF data words are read in the byte order of the
 file

---
 src/formats/spice/daf.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/formats/spice/daf.rs b/src/formats/spice/daf.rs
index c31f01d..77d0a16 100644
--- a/src/formats/spice/daf.rs
+++ b/src/formats/spice/daf.rs
@@ -96,6 +96,7 @@ pub struct DafRaw {
     /// All raw summaries parsed from the kernel.
     pub raw_summaries: Vec<RawSummary>,
     bytes: Vec<u8>,
+    little_endian: bool,
 }
 
 impl Daf {
@@ -162,8 +163,15 @@ impl Daf {
     #[inline]
     pub fn read_f64_at_word(&self, data: &[u8], word: usize) -> f64 {
         let offset = (word - 1) * 8;
-        // DE440/DE441 kernels from NAIF are little-endian on modern systems.
-        read_f64_le(data, offset)
+        // The header carries the byte order; bare word buffers are little-endian.
+        let big_endian = data.len() >= 16
+            && data.starts_with(b"DAF")
+            && matches!(detect_layout(data), Ok((false, ..)));
+        if big_endian {
+            read_f64_be(data, offset)
+        } else {
+            read_f64_le(data, offset)
+        }
     }
 }
 
@@ -212,14 +220,19 @@ impl DafRaw {
             locator,
             raw_summaries,
             bytes: data,
+            little_endian: le,
         })
     }
 
-    /// Read an `f64` at a 1-based word index (little-endian).
+    /// Read an `f64` at a 1-based word index, in the byte order of the file.
     #[inline]
     pub fn read_f64_at_word(&self, word: usize) -> f64 {
         let offset = (word - 1) * 8;
-        read_f64_le(&self.bytes, offset)
+        if self.little_endian {
+            read_f64_le(&self.bytes, offset)
+        } else {
+            read_f64_be(&self.bytes, offset)
+        }
     }
 
     /// Borrow the raw kernel bytes.
@@ -305,11 +318,7 @@ fn word_address(value: i32) -> Result<usize, SpiceError> {
 }
 
 /// Check that the 1-based word range `start..=end` lies inside the file.
-pub(crate) fn ensure_word_range(
-    data: &[u8],
-    start: usize,
-    end: usize,
-) -> Result<(), SpiceError> {
+pub(crate) fn ensure_word_range(data: &[u8], start: usize, end: usize) -> Result<(), SpiceError> {
     if start == 0 || end < start || end > data.len() / 8 {
         return Err(SpiceError::FormatParse(format!(
             "segment word range [{start}..{end}] lies outside the file ({} words)",
-- 
2.43.0


From 73b814fb6d7d04cd6bee9535b9c1975d5dfeec31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:10 +0000
Subject: [PATCH 41/85] fix: SPICE text kernels refuse dropped statements and
 deep nesting, accept D exponents

---
 src/formats/spice/text.rs | 53 +++++++++++++++++++++++++++++++--------
 1 file changed, 42 insertions(+), 11 deletions(-)

diff --git a/src/formats/spice/text.rs b/src/formats/spice/text.rs
index 42ad81f..02d683c 100644
--- a/src/formats/spice/text.rs
+++ b/src/formats/spice/text.rs
@@ -63,13 +63,14 @@ impl TextKernel {
         for raw_line in src.lines() {
             let trimmed = raw_line.trim();
             if trimmed.eq_ignore_ascii_case("\\begindata") {
+                require_no_pending(&statement)?;
                 in_data = true;
-                statement.clear();
                 continue;
             }
+
             if trimmed.eq_ignore_ascii_case("\\begintext") {
+                require_no_pending(&statement)?;
                 in_data = false;
-                statement.clear();
                 continue;
             }
             if !in_data {
@@ -99,11 +100,7 @@ impl TextKernel {
             statement.clear();
         }
 
-        if !statement.trim().is_empty() {
-            return Err(SpiceError::FormatParse(
-                "unterminated text-kernel assignment".to_string(),
-            ));
-        }
+        require_no_pending(&statement)?;
 
         Ok(kernel)
     }
@@ -147,6 +144,15 @@ fn strip_comment_fragments(line: &str) -> String {
     out
 }
 
+fn require_no_pending(statement: &str) -> Result<(), SpiceError> {
+    if statement.trim().is_empty() {
+        return Ok(());
+    }
+    Err(SpiceError::FormatParse(
+        "unterminated text-kernel assignment".to_string(),
+    ))
+}
+
 fn statement_complete(statement: &str) -> bool {
     let mut paren_depth = 0_i32;
     let mut quote = None;
@@ -274,11 +280,19 @@ fn flatten_i64(values: &[TextValue]) -> Option<Vec<i64>> {
 struct ValueParser<'a> {
     src: &'a str,
     index: usize,
+    depth: usize,
 }
 
+/// Deepest array nesting accepted in a value.
+const MAX_ARRAY_DEPTH: usize = 64;
+
 impl<'a> ValueParser<'a> {
     fn new(src: &'a str) -> Self {
-        Self { src, index: 0 }
+        Self {
+            src,
+            index: 0,
+            depth: 0,
+        }
     }
 
     fn parse_value(&mut self) -> Result<TextValue, SpiceError> {
@@ -289,7 +303,17 @@ impl<'a> ValueParser<'a> {
             ));
         };
         match ch {
-            '(' => self.parse_array(),
+            '(' => {
+                if self.depth >= MAX_ARRAY_DEPTH {
+                    return Err(SpiceError::FormatParse(
+                        "text-kernel arrays are nested too deeply".to_string(),
+                    ));
+                }
+                self.depth += 1;
+                let array = self.parse_array();
+                self.depth -= 1;
+                array
+            }
             '\'' | '"' => self.parse_string(),
             _ => self.parse_bare(),
         }
@@ -378,8 +402,15 @@ fn parse_scalar(token: &str) -> TextValue {
     if let Ok(value) = token.parse::<i64>() {
         return TextValue::Integer(value);
     }
-    if let Ok(value) = token.parse::<f64>() {
-        return TextValue::Float(value);
+    // Fortran-style `D` exponents are ordinary numbers in text kernels.
+    let numeric = token
+        .bytes()
+        .all(|b| b.is_ascii_digit() || b"+-.eEdD".contains(&b));
+    if numeric {
+        let normalized = token.replace(['d', 'D'], "e");
+        if let Ok(value) = normalized.parse::<f64>() {
+            return TextValue::Float(value);
+        }
     }
     TextValue::Text(token.to_string())
 }
-- 
2.43.0


From e54decef317bc2f43d1a8fecd279d064e2d605d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:10 +0000
Subject: [PATCH 42/85] fix: LSK calendar epochs are placed on the TDB axis and
 range-checked

---
 src/formats/spice/lsk.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/formats/spice/lsk.rs b/src/formats/spice/lsk.rs
index 094ffb7..823dec4 100644
--- a/src/formats/spice/lsk.rs
+++ b/src/formats/spice/lsk.rs
@@ -62,7 +62,11 @@ impl LeapSecondKernel {
         let mut leap_table = Vec::with_capacity(delta_at.len() / 2);
         for pair in delta_at.chunks(2) {
             let delta = scalar_as_f64(&pair[0], "DELTET/DELTA_AT delta")?;
-            let epoch = epoch_as_j2000_seconds(&pair[1])?;
+            let mut epoch = epoch_as_j2000_seconds(&pair[1])?;
+            if matches!(pair[1], TextValue::Text(_)) {
+                // Calendar tokens are UTC; the table is kept on the TDB axis.
+                epoch += delta_t_a + delta;
+            }
             leap_table.push((epoch, delta));
         }
         leap_table.sort_by(|left, right| left.0.total_cmp(&right.0));
@@ -132,6 +136,11 @@ fn parse_epoch_text(text: &str) -> Result<f64, SpiceError> {
             .next()
             .ok_or_else(|| SpiceError::FormatParse(format!("bad LSK epoch '{trimmed}'")))?,
     )?;
+    if !(-100_000..=100_000).contains(&year) {
+        return Err(SpiceError::FormatParse(format!(
+            "LSK year out of range in '{trimmed}'"
+        )));
+    }
     let day_text = parts
         .next()
         .ok_or_else(|| SpiceError::FormatParse(format!("bad LSK epoch '{trimmed}'")))?;
@@ -139,6 +148,12 @@ fn parse_epoch_text(text: &str) -> Result<f64, SpiceError> {
         .parse::<i32>()
         .map_err(|_| SpiceError::FormatParse(format!("bad LSK day in '{trimmed}'")))?;
 
+    if !(1..=31).contains(&day) {
+        return Err(SpiceError::FormatParse(format!(
+            "LSK day out of range in '{trimmed}'"
+        )));
+    }
+
     let jd = gregorian_to_jd(year, month, day);
     Ok((jd - 2_451_545.0) * 86_400.0)
 }
-- 
2.43.0


From f04663fa8877111a87cf905d72a325ac5c2fad4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:10 +0000
Subject: [PATCH 43/85] fix: text-PCK rotation to J2000 uses the inverse pole
 rotations

---
 src/formats/spice/pck.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/formats/spice/pck.rs b/src/formats/spice/pck.rs
index 42d20c8..ab607cb 100644
--- a/src/formats/spice/pck.rs
+++ b/src/formats/spice/pck.rs
@@ -37,6 +37,11 @@ pub struct BodyOrientation {
 }
 
 impl BodyOrientation {
+    /// Whether pole and prime-meridian constants are all present.
+    pub(crate) fn has_orientation(&self) -> bool {
+        !(self.pole_ra.is_empty() || self.pole_dec.is_empty() || self.pm.is_empty())
+    }
+
     /// Rotation matrix from body-fixed frame to J2000 at epoch `tdb_s`.
     ///
     /// Uses first-order IAU pole RA/Dec/PM, ignoring nutation terms.
@@ -53,8 +58,8 @@ impl BodyOrientation {
 
         mat3_mul(
             mat3_mul(
-                r3(std::f64::consts::FRAC_PI_2 + ra),
-                r1(std::f64::consts::FRAC_PI_2 - dec),
+                r3(-(std::f64::consts::FRAC_PI_2 + ra)),
+                r1(-(std::f64::consts::FRAC_PI_2 - dec)),
             ),
             r3(-w),
         )
-- 
2.43.0


From 961d2f827d947f5a161e439f3c1948dcfd143a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:10 +0000
Subject: [PATCH 44/85] fix: SPK and CK readers give later segments precedence
 within descriptor coverage

---
 src/formats/spice/ck.rs     |  8 ++++++--
 src/formats/spice/kernel.rs | 10 ++++++----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/formats/spice/ck.rs b/src/formats/spice/ck.rs
index e6d60fc..bf7a2bd 100644
--- a/src/formats/spice/ck.rs
+++ b/src/formats/spice/ck.rs
@@ -153,7 +153,8 @@ impl CkKernel {
     /// Return the rotation quaternion for instrument `inst_id` at SCLK ticks `sclkdp`.
     pub fn rotation(&self, inst_id: i32, sclkdp: f64) -> Result<[f64; 4], SpiceError> {
         let mut coverage: Option<(f64, f64)> = None;
-        for segment in &self.segments {
+        // Later segments take precedence, as in NAIF's CK readers.
+        for segment in self.segments.iter().rev() {
             if segment.inst_id != inst_id {
                 continue;
             }
@@ -164,7 +165,10 @@ impl CkKernel {
                 None => (segment.start_sclkdp, segment.end_sclkdp),
             });
             if sclkdp >= segment.start_sclkdp && sclkdp <= segment.end_sclkdp {
-                return segment.evaluate(sclkdp);
+                match segment.evaluate(sclkdp) {
+                    Err(SpiceError::OutOfCoverage { .. }) => continue,
+                    result => return result,
+                }
             }
         }
 
diff --git a/src/formats/spice/kernel.rs b/src/formats/spice/kernel.rs
index f969d90..b590d9a 100644
--- a/src/formats/spice/kernel.rs
+++ b/src/formats/spice/kernel.rs
@@ -99,8 +99,10 @@ impl SpkKernel {
         for summary in &daf.summaries {
             let (segment, start, end) = match segment_for_summary(&bytes, &daf, summary) {
                 Ok(seg) => {
-                    let start = seg.start_tdb_seconds();
-                    let end = seg.end_tdb_seconds();
+                    // The descriptor bounds are authoritative; the data may extend
+                    // past them.
+                    let start = seg.start_tdb_seconds().max(summary.start_et);
+                    let end = seg.end_tdb_seconds().min(summary.end_et);
                     (Some(seg), start, end)
                 }
                 Err(SpiceError::UnsupportedDataType { .. }) => {
@@ -246,7 +248,7 @@ impl SpkKernel {
             }
             // Outgoing forward edges (segments where node is the target).
             if let Some(idxs) = self.by_target.get(&node) {
-                for &i in idxs {
+                for &i in idxs.iter().rev() {
                     let s = &self.segments[i];
                     if epoch < s.start_tdb_seconds || epoch > s.end_tdb_seconds {
                         continue;
@@ -258,7 +260,7 @@ impl SpkKernel {
                 }
             }
             // Reverse edges (segments where node is the center).
-            for (i, s) in self.segments.iter().enumerate() {
+            for (i, s) in self.segments.iter().enumerate().rev() {
                 if s.center != node {
                     continue;
                 }
-- 
2.43.0


From c5f11237096e1b1ec9746c496e4e497e95a86841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:10 +0000
Subject: [PATCH 45/85] fix: kernel set reports missing coverage when a chain
 exists

---
 src/spice/kernel_set.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/spice/kernel_set.rs b/src/spice/kernel_set.rs
index e41ba9d..b6c6ce5 100644
--- a/src/spice/kernel_set.rs
+++ b/src/spice/kernel_set.rs
@@ -121,14 +121,18 @@ impl KernelSet {
         center: i32,
         epoch_tdb_s: f64,
     ) -> Result<[f64; 6], SpiceError> {
+        let mut out_of_coverage = None;
         for (_, kernel) in self.spk.iter().rev() {
             match kernel.state(target, center, epoch_tdb_s) {
                 Ok(state) => return Ok(state),
-                Err(SpiceError::NoChain { .. } | SpiceError::OutOfCoverage { .. }) => continue,
+                Err(SpiceError::NoChain { .. }) => continue,
+                Err(err @ SpiceError::OutOfCoverage { .. }) => {
+                    out_of_coverage.get_or_insert(err);
+                }
                 Err(other) => return Err(other),
             }
         }
-        Err(SpiceError::NoChain { target, center })
+        Err(out_of_coverage.unwrap_or(SpiceError::NoChain { target, center }))
     }
 }
 
-- 
2.43.0


From ff92eac2c8e1b939e9971c4378f64666268a212b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:10 +0000
Subject: [PATCH 46/85] fix: SPICE text loads are atomic, frame cycles and
 incomplete PCK bodies are refused

---
 src/spice/context.rs | 51 ++++++++++++++++++++++++++++----------------
 1 file changed, 33 insertions(+), 18 deletions(-)

diff --git a/src/spice/context.rs b/src/spice/context.rs
index 0dd4e1f..e94e488 100644
--- a/src/spice/context.rs
+++ b/src/spice/context.rs
@@ -120,26 +120,34 @@ impl SpiceContext {
             .keys()
             .any(|key| key.starts_with("INS") && key.contains("_FOV"));
 
-        if has_lsk {
-            self.kernel_set
-                .set_lsk(alias.clone(), LeapSecondKernel::from_text(text)?);
+        // Parse every section before touching the pool, so that a kernel that
+        // fails to load leaves it unchanged.
+        let lsk = has_lsk
+            .then(|| LeapSecondKernel::from_text(text))
+            .transpose()?;
+        let fk = has_fk.then(|| FrameKernel::from_text(text)).transpose()?;
+        let pck = has_pck.then(|| PckKernel::from_text(text)).transpose()?;
+        let sclks = has_sclk
+            .then(|| SclkKernel::from_text(text))
+            .transpose()?
+            .unwrap_or_default();
+        let ik = has_ik.then(|| IkKernel::from_text(text)).transpose()?;
+
+        if let Some(lsk) = lsk {
+            self.kernel_set.set_lsk(alias.clone(), lsk);
         }
-        if has_fk {
-            let fk = FrameKernel::from_text(text)?;
+        if let Some(fk) = fk {
             self.frame_registry.add_fk(&fk);
             self.kernel_set.add_fk(alias.clone(), fk);
         }
-        if has_pck {
-            self.kernel_set
-                .add_pck_text(alias.clone(), PckKernel::from_text(text)?);
+        if let Some(pck) = pck {
+            self.kernel_set.add_pck_text(alias.clone(), pck);
         }
-        if has_sclk {
-            for sclk in SclkKernel::from_text(text)? {
-                self.kernel_set.add_sclk(alias.clone(), sclk);
-            }
+        for sclk in sclks {
+            self.kernel_set.add_sclk(alias.clone(), sclk);
         }
-        if has_ik {
-            self.kernel_set.add_ik(alias, IkKernel::from_text(text)?);
+        if let Some(ik) = ik {
+            self.kernel_set.add_ik(alias, ik);
         }
         Ok(())
     }
@@ -164,8 +172,8 @@ impl SpiceContext {
         if from_id == to_id {
             return Ok(identity_3x3());
         }
-        let from_to_j2000 = self.frame_to_j2000(from_id, epoch_tdb_s)?;
-        let to_to_j2000 = self.frame_to_j2000(to_id, epoch_tdb_s)?;
+        let from_to_j2000 = self.frame_to_j2000(from_id, epoch_tdb_s, &mut Vec::new())?;
+        let to_to_j2000 = self.frame_to_j2000(to_id, epoch_tdb_s, &mut Vec::new())?;
         Ok(mat3_mul(mat3_transpose(to_to_j2000), from_to_j2000))
     }
 
@@ -231,10 +239,17 @@ impl SpiceContext {
         &self,
         frame_id: i32,
         epoch_tdb_s: f64,
+        visited: &mut Vec<i32>,
     ) -> Result<[[f64; 3]; 3], SpiceContextError> {
         if frame_id == 1 {
             return Ok(identity_3x3());
         }
+        if visited.contains(&frame_id) {
+            return Err(SpiceContextError::UnsupportedKernelQuery {
+                message: format!("frame {frame_id} is defined relative to itself"),
+            });
+        }
+        visited.push(frame_id);
 
         let spec = self
             .frame_registry
@@ -246,7 +261,7 @@ impl SpiceContext {
                 .frame_registry
                 .frame_by_name(relative_name)
                 .map_err(spice_error_to_context)?;
-            let relative_to_j2000 = self.frame_to_j2000(relative.id, epoch_tdb_s)?;
+            let relative_to_j2000 = self.frame_to_j2000(relative.id, epoch_tdb_s, visited)?;
             return Ok(mat3_mul(relative_to_j2000, *matrix));
         }
 
@@ -272,7 +287,7 @@ impl SpiceContext {
         epoch_tdb_s: f64,
     ) -> Result<[[f64; 3]; 3], SpiceContextError> {
         for pck in self.kernel_set.pck_text_kernels().rev() {
-            if let Some(orientation) = pck.body(body_id) {
+            if let Some(orientation) = pck.body(body_id).filter(|body| body.has_orientation()) {
                 return Ok(orientation.rotation_to_j2000(epoch_tdb_s));
             }
         }
-- 
2.43.0


From 592db21a3fe83137bcec0302c8129585c870a9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:12 +0000
Subject: [PATCH 47/85] fix: LSK calendar dates follow the Gregorian century
 rules

---
 src/formats/spice/lsk.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/formats/spice/lsk.rs b/src/formats/spice/lsk.rs
index 823dec4..078c678 100644
--- a/src/formats/spice/lsk.rs
+++ b/src/formats/spice/lsk.rs
@@ -179,10 +179,14 @@ fn month_number(month: &str) -> Result<i32, SpiceError> {
 }
 
 fn gregorian_to_jd(year: i32, month: i32, day: i32) -> f64 {
-    let term1 = 367 * year;
-    let term2 = 7 * (year + (month + 9) / 12) / 4;
-    let term3 = 275 * month / 9;
-    (term1 - term2 + term3 + day + 1_721_013) as f64 + 0.5
+    // Fliegel & Van Flandern, with floored divisions so that century rules hold for every year.
+    let a = (14 - month) / 12;
+    let y = year + 4800 - a;
+    let m = month + 12 * a - 3;
+    let jdn = day + (153 * m + 2) / 5 + 365 * y + y.div_euclid(4) - y.div_euclid(100)
+        + y.div_euclid(400)
+        - 32_045;
+    f64::from(jdn) - 0.5
 }
 
 #[cfg(test)]
-- 
2.43.0


From acfacb51eaf53c5daca80b1bcbf45f4104947314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:12 +0000
Subject: [PATCH 48/85] fix: geocentric planet states honour segment precedence
 and every chain

---
 src/formats/spice/spk_kernel.rs | 44 ++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/src/formats/spice/spk_kernel.rs b/src/formats/spice/spk_kernel.rs
index 50bd0ec..9dc4248 100644
--- a/src/formats/spice/spk_kernel.rs
+++ b/src/formats/spice/spk_kernel.rs
@@ -187,10 +187,9 @@ impl SpkKernelSet {
         jd: JulianDate,
     ) -> Result<IcrfKm, SpkKernelError> {
         if let PlanetPoint::SystemBarycenter = point {
-            match self.try_major_planet_barycenter_geocentric_fast(planet, jd) {
-                Ok(state) => return Ok(state),
-                Err(SpkKernelError::MissingSegment { .. }) => {}
-                Err(err) => return Err(err),
+            // On any failure the general route below also tries the other chains.
+            if let Ok(state) = self.try_major_planet_barycenter_geocentric_fast(planet, jd) {
+                return Ok(state);
             }
         }
         self.try_geometric_state(planet.naif_id(point), EARTH_ID, jd)
@@ -203,18 +202,39 @@ impl SpkKernelSet {
     ) -> Result<IcrfKm, SpkKernelError> {
         let et = jd_tt_to_spice_et_seconds(jd);
         let target =
-            self.try_edge_position_et(planet.naif_id(PlanetPoint::SystemBarycenter), SSB_ID, et)?;
-        let emb = self.try_edge_position_et(EMB_ID, SSB_ID, et)?;
-        let earth = match self.try_edge_position_et(EARTH_ID, EMB_ID, et) {
-            Ok(earth_off) => emb + earth_off,
-            Err(_) => {
-                let moon_off = self.try_edge_position_et(MOON_ID, EMB_ID, et)?;
-                emb - moon_off.scale(1.0 / EARTH_MOON_RATIO)
-            }
+            self.try_leading_edge_et(planet.naif_id(PlanetPoint::SystemBarycenter), SSB_ID, et)?;
+        let emb = self.try_leading_edge_et(EMB_ID, SSB_ID, et)?;
+        let earth = if self.leading_segment_et(EARTH_ID, et).is_some() {
+            emb + self.try_leading_edge_et(EARTH_ID, EMB_ID, et)?
+        } else {
+            let moon_off = self.try_edge_position_et(MOON_ID, EMB_ID, et)?;
+            emb - moon_off.scale(1.0 / EARTH_MOON_RATIO)
         };
         Ok(target - earth)
     }
 
+    /// Most recently loaded segment of `target_id` that covers `et`.
+    fn leading_segment_et(&self, target_id: i32, et: f64) -> Option<&KernelSegment> {
+        self.segments
+            .iter()
+            .rev()
+            .find(|segment| segment.target_id == target_id && segment.covers_et(et))
+    }
+
+    /// Offset from `center_id`, provided the leading segment of `target_id` is relative to it.
+    fn try_leading_edge_et(
+        &self,
+        target_id: i32,
+        center_id: i32,
+        et: f64,
+    ) -> Result<IcrfKm, SpkKernelError> {
+        let segment = self
+            .leading_segment_et(target_id, et)
+            .filter(|segment| segment.center_id == center_id)
+            .ok_or(SpkKernelError::MissingSegment { target_id })?;
+        Ok(segment.try_position_et(et)?)
+    }
+
     fn try_position_from_ssb(
         &self,
         target_id: i32,
-- 
2.43.0


From 80147bcc6d952e9879f04f99cdd153287403541f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:56 +0000
Subject: [PATCH 49/85] fix: do not interpolate the leap-second step of UT1-UTC
 in an EOP table

---
 src/formats/iers/eop.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/formats/iers/eop.rs b/src/formats/iers/eop.rs
index 38e9e1c..b5998cf 100644
--- a/src/formats/iers/eop.rs
+++ b/src/formats/iers/eop.rs
@@ -119,6 +119,9 @@ pub fn read_eop_c04<R: Read>(rdr: R) -> Result<Vec<EopRecord>, FormatError> {
 ///
 /// Returns `None` if the table is empty; clamps to the endpoints when the
 /// requested epoch lies outside the table range.
+///
+/// UT1 − UTC steps by a whole second at the end of a UTC day with a leap
+/// second; the step takes effect at the later record and is not interpolated.
 pub fn interpolate(records: &[EopRecord], mjd: ModifiedJulianDate<UTC>) -> Option<EopRecord> {
     if records.is_empty() {
         return None;
@@ -146,12 +149,14 @@ pub fn interpolate(records: &[EopRecord], mjd: ModifiedJulianDate<UTC>) -> Optio
     let b_val = b.mjd.raw().value();
     let t_val = mjd.raw().value();
     let f = (t_val - a_val) / (b_val - a_val);
+    let dut1_change = b.eop.dut1.value() - a.eop.dut1.value();
+    let dut1_change = dut1_change - dut1_change.round();
     Some(EopRecord {
         mjd,
         eop: EopValues {
             xp: Arcseconds::new(a.eop.xp.value() + f * (b.eop.xp.value() - a.eop.xp.value())),
             yp: Arcseconds::new(a.eop.yp.value() + f * (b.eop.yp.value() - a.eop.yp.value())),
-            dut1: Seconds::new(a.eop.dut1.value() + f * (b.eop.dut1.value() - a.eop.dut1.value())),
+            dut1: Seconds::new(a.eop.dut1.value() + f * dut1_change),
             lod: Seconds::new(a.eop.lod.value() + f * (b.eop.lod.value() - a.eop.lod.value())),
             dx: MilliArcseconds::new(a.eop.dx.value() + f * (b.eop.dx.value() - a.eop.dx.value())),
             dy: MilliArcseconds::new(a.eop.dy.value() + f * (b.eop.dy.value() - a.eop.dy.value())),
-- 
2.43.0


From 0de3cc4302779269bdaeeec909b345ec367568ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:56 +0000
Subject: [PATCH 50/85] fix: refuse unreadable values in an IERS C04 file
 instead of reading them as zero

---
 src/formats/iers/eop.rs | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/formats/iers/eop.rs b/src/formats/iers/eop.rs
index b5998cf..0eb0997 100644
--- a/src/formats/iers/eop.rs
+++ b/src/formats/iers/eop.rs
@@ -28,7 +28,7 @@
 //!   release documentation.
 //! - IERS Conventions Centre. (2010). IERS Conventions (2010). Verlag des
 //!   Bundesamts fur Kartographie und Geodasie.
-use super::FormatError;
+use super::{FileLocation, FormatError};
 use qtty::angular::{Arcseconds, MilliArcseconds};
 use qtty::time::Seconds;
 use qtty::Day;
@@ -64,10 +64,18 @@ pub struct EopRecord {
 }
 
 /// Parse a C04-style EOP file.
+///
+/// Headers, comments and other lines that do not start with a date are
+/// skipped.
+///
+/// # Errors
+///
+/// Returns [`FormatError::Located`] when a dated line carries a value that is
+/// not a finite number.
 pub fn read_eop_c04<R: Read>(rdr: R) -> Result<Vec<EopRecord>, FormatError> {
     let br = BufReader::new(rdr);
     let mut out = Vec::new();
-    for line in br.lines() {
+    for (index, line) in br.lines().enumerate() {
         let line = line?;
         let trimmed = line.trim_start();
         if trimmed.is_empty() || trimmed.starts_with('#') {
@@ -94,12 +102,20 @@ pub fn read_eop_c04<R: Read>(rdr: R) -> Result<Vec<EopRecord>, FormatError> {
             Ok(m) => m,
             Err(_) => continue,
         };
-        let x = parts[4].parse().unwrap_or(0.0);
-        let y = parts[5].parse().unwrap_or(0.0);
-        let ut1 = parts[6].parse().unwrap_or(0.0);
-        let lod = parts[7].parse().unwrap_or(0.0);
-        let dpsi = parts[8].parse().unwrap_or(0.0);
-        let deps = parts[9].parse().unwrap_or(0.0);
+        let value = |column: usize| match parts[column].parse::<f64>() {
+            Ok(v) if v.is_finite() => Ok(v),
+            _ => Err(FormatError::located(
+                "IERS C04",
+                FileLocation::at_line(index + 1),
+                format!("unreadable value {:?}", parts[column]),
+            )),
+        };
+        let x = value(4)?;
+        let y = value(5)?;
+        let ut1 = value(6)?;
+        let lod = value(7)?;
+        let dpsi = value(8)?;
+        let deps = value(9)?;
         out.push(EopRecord {
             mjd,
             eop: EopValues {
-- 
2.43.0


From 24312a2ab55077ac46f91eed2187bbec0029e38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:56 +0000
Subject: [PATCH 51/85] fix: use the context's EOP values in observer rotations
 when no runtime table is loaded

---
 src/astro/earth_rotation_provider.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/astro/earth_rotation_provider.rs b/src/astro/earth_rotation_provider.rs
index cf96c88..b291e0d 100644
--- a/src/astro/earth_rotation_provider.rs
+++ b/src/astro/earth_rotation_provider.rs
@@ -37,7 +37,7 @@
 //! * SOFA Earth-rotation cookbook (`iauC2t06a` and friends)
 
 use crate::astro::cio;
-use crate::astro::earth_rotation::{jd_ut1_from_tt_eop, try_jd_utc_from_tt};
+use crate::astro::earth_rotation::jd_ut1_from_tt_eop;
 use crate::astro::eop::{EopProvider, EopValues};
 use crate::astro::era::earth_rotation_angle;
 use crate::astro::nutation::NutationModel;
@@ -99,10 +99,7 @@ pub(crate) fn itrs_to_equatorial_mean_j2000_rotation<Eph, Eop: EopProvider, Nut:
     jd: JulianDate,
     ctx: &AstroContext<Eph, Eop>,
 ) -> affn::Rotation3 {
-    let eop = match try_jd_utc_from_tt(jd) {
-        Ok(jd_utc) => ctx.eop_at(jd_utc),
-        Err(_) => EopValues::default(),
-    };
+    let eop = ctx.eop_at_tt(jd);
     let jd_ut1 = jd_ut1_from_tt_eop(jd, &eop);
 
     let (dpsi, deps) = nutation_with_celestial_pole_offsets::<Nut>(jd, eop);
-- 
2.43.0


From b63f87e1d10936d30ef11bac94e40750bbb2f3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:56 +0000
Subject: [PATCH 52/85] fix: look up the bundled UT1-UTC by UTC, not UT1, next
 to a leap second

---
 src/astro/earth_rotation.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/astro/earth_rotation.rs b/src/astro/earth_rotation.rs
index ce8104b..8a8c3db 100644
--- a/src/astro/earth_rotation.rs
+++ b/src/astro/earth_rotation.rs
@@ -98,7 +98,11 @@ pub fn try_jd_utc_from_tt(jd_tt: JulianDate) -> Result<JulianDate, EopError> {
     let ut1 = jd_tt_t
         .to_with::<UT1>(&ctx)
         .expect("TT->UT1 conversion should succeed within the bundled model horizon");
-    let ut1_jd = ut1.to::<tempoch::JD>().raw().value();
+    jd_utc_from_ut1(ut1.to::<tempoch::JD>().raw().value()).map(crate::time::JulianDate::new)
+}
+
+/// UTC Julian Date of a UT1 Julian Date, from the active IERS EOP bundle.
+fn jd_utc_from_ut1(ut1_jd: f64) -> Result<f64, EopError> {
     let mut utc_jd = ut1_jd;
 
     for _ in 0..3 {
@@ -112,7 +116,7 @@ pub fn try_jd_utc_from_tt(jd_tt: JulianDate) -> Result<JulianDate, EopError> {
         utc_jd = ut1_jd - eop.ut1_minus_utc.to::<Day>().value();
     }
 
-    Ok(crate::time::JulianDate::new(utc_jd))
+    Ok(utc_jd)
 }
 
 /// Compute JD(UTC) from JD(TT) without requiring runtime EOP.
@@ -163,9 +167,10 @@ pub fn jd_ut1_from_tt_eop(jd_tt: JulianDate, eop: &EopValues) -> JulianDate {
         .expect("TT->UT1 conversion should succeed within the bundled model horizon");
     let ut1_jd = ut1.to::<tempoch::JD>().raw().value();
 
-    let mjd_query = qtty::Day::new(ut1_jd - 2_400_000.5);
-    let bundled_dut1 = ctx
-        .ut1_minus_utc(mjd_query)
+    // The bundled series is indexed by UTC: UT1 can lie on the other side of a leap second.
+    let bundled_dut1 = jd_utc_from_ut1(ut1_jd)
+        .ok()
+        .and_then(|utc_jd| ctx.ut1_minus_utc(Days::new(utc_jd - 2_400_000.5)))
         .map(|s| s.value())
         .unwrap_or(0.0);
     let residual_days = (eop.dut1.value() - bundled_dut1) / 86_400.0;
-- 
2.43.0


From 9b3584cd06b98847c87f419aba96593af44f4c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:24 +0000
Subject: [PATCH 53/85] fix: FixedRk4Adapter resumes its full step after a step
 shortened for an output epoch

---
 src/astro/dynamics/propagation/propagator.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/astro/dynamics/propagation/propagator.rs b/src/astro/dynamics/propagation/propagator.rs
index 26cd4bc..37e1041 100644
--- a/src/astro/dynamics/propagation/propagator.rs
+++ b/src/astro/dynamics/propagation/propagator.rs
@@ -93,7 +93,10 @@ where
             Second::new(h_try.value().signum() * max_h)
         };
         let new_state = rk4_step(model, state, h, ctx)?;
-        Ok((new_state, h, h, 0))
+        // The next step is a full one again: a step shortened to land on an
+        // output epoch must not shorten all the steps after it.
+        let h_next = Second::new(h_try.value().signum() * max_h);
+        Ok((new_state, h, h_next, 0))
     }
 }
 
-- 
2.43.0


From 87f0dd89dc95699ea31b22778fa4c2bf74155922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:13 +0000
Subject: [PATCH 54/85] fix: DragForce uses the whole angular-velocity vector,
 not only its z component

---
 src/astro/dynamics/forces/drag.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/astro/dynamics/forces/drag.rs b/src/astro/dynamics/forces/drag.rs
index b710798..d98dc74 100644
--- a/src/astro/dynamics/forces/drag.rs
+++ b/src/astro/dynamics/forces/drag.rs
@@ -90,12 +90,13 @@ impl AccelerationModel<DynamicsContext, TT, Geocentric, GCRS> for DragForce {
             .value();
         let rx = s.position.x().value();
         let ry = s.position.y().value();
+        let rz = s.position.z().value();
+        let ox = self.omega_earth.x().value();
+        let oy = self.omega_earth.y().value();
         let oz = self.omega_earth.z().value();
-        let omega_cross_r_x = -oz * ry;
-        let omega_cross_r_y = oz * rx;
-        let vx = s.velocity.x().value() - omega_cross_r_x;
-        let vy = s.velocity.y().value() - omega_cross_r_y;
-        let vz = s.velocity.z().value();
+        let vx = s.velocity.x().value() - (oy * rz - oz * ry);
+        let vy = s.velocity.y().value() - (oz * rx - ox * rz);
+        let vz = s.velocity.z().value() - (ox * ry - oy * rx);
         let v_mag_m_s = (vx * vx + vy * vy + vz * vz).sqrt() * 1_000.0;
         let pre = -0.5 * self.cd.value() * self.area_to_mass.value() * rho * v_mag_m_s;
         Ok(Acceleration::<GCRS, AccelerationUnit>::new(
-- 
2.43.0


From 1c23ac7df148dd08c0c016839b940d61eebbddbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:07 +0000
Subject: [PATCH 55/85] fix: Lagrange solver differences the epochs it samples,
 not the nominal step

---
 src/ephemeris/lagrange/solver.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ephemeris/lagrange/solver.rs b/src/ephemeris/lagrange/solver.rs
index 46be958..98978b8 100644
--- a/src/ephemeris/lagrange/solver.rs
+++ b/src/ephemeris/lagrange/solver.rs
@@ -480,9 +480,12 @@ fn relative_velocity(sampler: &dyn Sampler, jd: JulianDate) -> Result<Vec3, Solv
         .map_err(|_| SolverError::DegenerateFrame)?;
     let rel_before = sub(sampler.earth(before)?, sampler.sun(before)?);
     let rel_after = sub(sampler.earth(after)?, sampler.sun(after)?);
+    // The span actually sampled: a Julian Date is only resolved to about 40 µs, which the
+    // nominal step would turn into kilometres of error at the equilibrium.
+    let span_days = after.raw().value() - before.raw().value();
     Ok(scale(
         sub(rel_after, rel_before),
-        1.0 / (2.0 * DERIVATIVE_STEP_DAYS * SECONDS_PER_DAY),
+        1.0 / (span_days * SECONDS_PER_DAY),
     ))
 }
 
-- 
2.43.0


From 8d76bf91de0e3d8f499f2debdd26f79114853e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:02 +0000
Subject: [PATCH 56/85] fix: Sun-Earth Lagrange solver converges at L3-L5
 instead of stalling up to 900000 km away

---
 src/ephemeris/lagrange/solver.rs | 49 ++++++++++++++++++++++++++------
 1 file changed, 40 insertions(+), 9 deletions(-)

diff --git a/src/ephemeris/lagrange/solver.rs b/src/ephemeris/lagrange/solver.rs
index 98978b8..50714fc 100644
--- a/src/ephemeris/lagrange/solver.rs
+++ b/src/ephemeris/lagrange/solver.rs
@@ -35,7 +35,7 @@ use std::fmt;
 const MAX_ITERS: usize = 50;
 const STEP_TOL_KM: f64 = 1.0e-6;
 const FD_STEP_KM: f64 = 1.0;
-const RESIDUAL_TOL_KM_S2: f64 = 1.0e-14;
+const RESIDUAL_TOL_KM_S2: f64 = 1.0e-21;
 const DERIVATIVE_STEP_DAYS: f64 = 0.01;
 const SECONDS_PER_DAY: f64 = crate::qtty::time::SECONDS_PER_DAY;
 
@@ -313,7 +313,8 @@ fn solve_with_sampler(
             });
         }
         let jac = jacobian(&frame, pos, config.finite_difference_step_km);
-        let mut delta = solve_linear(jac, neg(residual)).ok_or(SolverError::SingularJacobian)?;
+        let mut delta = solve_linear(jac, neg(frame.to_local(pos, residual)))
+            .ok_or(SolverError::SingularJacobian)?;
         let max_step = 0.05 * frame.distance;
         let delta_norm = norm(delta);
         if delta_norm > max_step {
@@ -322,14 +323,14 @@ fn solve_with_sampler(
         let mut accepted = delta;
         let mut alpha = 1.0;
         for _ in 0..12 {
-            let trial = add(pos, scale(delta, alpha));
+            let trial = frame.displace(pos, scale(delta, alpha));
             if norm(frame.residual(trial)) <= residual_norm || alpha <= 1.0 / 4096.0 {
                 accepted = scale(delta, alpha);
                 break;
             }
             alpha *= 0.5;
         }
-        pos = add(pos, accepted);
+        pos = frame.displace(pos, accepted);
         last_step = norm(accepted);
         if last_step <= config.step_tolerance_km {
             return Ok(SolverSolution {
@@ -448,6 +449,33 @@ impl RotatingFrame {
         )
     }
 
+    /// Radial, along-orbit and normal directions at `pos` about the Sun-Earth barycentre.
+    ///
+    /// At L3-L5 forces vary about 10⁶ times faster across the orbit than along it. Newton
+    /// steps are taken in these curvilinear directions, because in Cartesian ones the
+    /// curvature of the orbit would mask the variation along it.
+    fn local_axes(&self, pos: Vec3) -> Mat3 {
+        let radial = normalize(sub(pos, self.origin)).unwrap_or(self.x_axis);
+        let along = normalize(cross(self.z_axis, radial)).unwrap_or(self.y_axis);
+        [radial, along, cross(radial, along)]
+    }
+
+    fn to_local(&self, pos: Vec3, v: Vec3) -> Vec3 {
+        self.local_axes(pos).map(|axis| dot(axis, v))
+    }
+
+    /// Moves `pos` by `delta` (along the local axes), turning about the barycentre.
+    fn displace(&self, pos: Vec3, delta: Vec3) -> Vec3 {
+        let [radial, along, normal] = self.local_axes(pos);
+        let radius = norm(sub(pos, self.origin));
+        let turned = add(
+            scale(radial, radius),
+            add(scale(along, delta[1]), scale(normal, delta[2])),
+        );
+        let direction = normalize(turned).unwrap_or(radial);
+        add(self.origin, scale(direction, radius + delta[0]))
+    }
+
     fn seed(&self, point: SunEarthLagrangePoint) -> Vec3 {
         let rel = sub(self.earth, self.sun);
         let d = norm(rel);
@@ -542,12 +570,15 @@ fn grav_accel(pos: Vec3, bodies: &[(Vec3, f64); 3]) -> Vec3 {
 fn jacobian(frame: &RotatingFrame, pos: Vec3, h: f64) -> Mat3 {
     let mut jac = [[0.0; 3]; 3];
     for axis in 0..3 {
-        let mut plus = pos;
-        plus[axis] += h;
-        let mut minus = pos;
-        minus[axis] -= h;
+        let mut step = [0.0; 3];
+        step[axis] = h;
+        let plus = frame.displace(pos, step);
+        let minus = frame.displace(pos, neg(step));
         let diff = scale(
-            sub(frame.residual(plus), frame.residual(minus)),
+            sub(
+                frame.to_local(plus, frame.residual(plus)),
+                frame.to_local(minus, frame.residual(minus)),
+            ),
             1.0 / (2.0 * h),
         );
         for row in 0..3 {
-- 
2.43.0


From 63cc7556d803cb37929188391551bea67f6fc831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:18 +0000
Subject: [PATCH 57/85] fix: SP3 orbit products carry their own start epoch,
 epoch count, interval and time system in the header

---
 src/formats/mod.rs       |   2 +-
 src/pod/product/orbit.rs | 136 ++++++++++++++++++++++++++-------------
 2 files changed, 94 insertions(+), 44 deletions(-)

diff --git a/src/formats/mod.rs b/src/formats/mod.rs
index 88ef051..d86f9d9 100644
--- a/src/formats/mod.rs
+++ b/src/formats/mod.rs
@@ -26,7 +26,7 @@
 
 pub mod adsb;
 pub mod ccsds;
-mod civil;
+pub(crate) mod civil;
 pub mod error;
 pub mod iers;
 pub mod igs;
diff --git a/src/pod/product/orbit.rs b/src/pod/product/orbit.rs
index 5528b85..97aa23e 100644
--- a/src/pod/product/orbit.rs
+++ b/src/pod/product/orbit.rs
@@ -34,19 +34,86 @@ use crate::astro::dynamics::state::SpacecraftState;
 use crate::astro::dynamics::OrbitState;
 use crate::coordinates::frames::GCRS;
 use crate::formats::ccsds::oem::{write_oem, OemMetadata, OemState};
-use crate::formats::igs::sp3::{write_sp3, EarthCenter, Sp3Epoch, Sp3Position, Sp3Record};
+use crate::formats::civil::civil_from_utc;
+use crate::formats::igs::sp3::{
+    write_sp3, EarthCenter, Sp3Epoch, Sp3Error, Sp3Position, Sp3Record,
+};
 use crate::formats::FormatError;
-use crate::time::JulianDate;
 use affn::cartesian;
+use chrono::{Datelike, NaiveDate};
 use qtty::time::Microseconds;
 use qtty::unit::Kilometer;
-use qtty::Day;
 use std::io::Write;
 use std::path::Path;
 use tempoch::{Time, UTC};
 
 use super::error::PodProductsError;
 
+/// Header lines of a one-satellite product whose epochs are written in UTC.
+///
+/// The start epoch appears three times in an SP3 header (calendar date, GPS
+/// week and seconds of week, MJD and day fraction); all follow from `start`.
+/// A product without epochs names the origin of the GPS week count.
+fn sp3_header(
+    sat_id: &str,
+    start: Option<Time<UTC>>,
+    n_epochs: usize,
+    interval_s: f64,
+) -> Result<Vec<String>, Sp3Error> {
+    let gps_origin = NaiveDate::from_ymd_opt(1980, 1, 6).expect("GPS epoch is valid");
+    let (date, hour, minute, second) = match start {
+        Some(t) => {
+            let t = civil_from_utc(t, 8).map_err(|err| Sp3Error::Record {
+                line: 0,
+                message: format!("epoch to chrono: {err}"),
+            })?;
+            let date = NaiveDate::from_ymd_opt(t.year, t.month, t.day).ok_or_else(|| {
+                Sp3Error::Record {
+                    line: 0,
+                    message: "epoch outside the calendar".into(),
+                }
+            })?;
+            (date, t.hour, t.minute, t.second)
+        }
+        None => (gps_origin, 0, 0, 0.0),
+    };
+    let days = (date - gps_origin).num_days();
+    let seconds_of_day = f64::from(hour * 3_600 + minute * 60) + second;
+    let seconds_of_week = days.rem_euclid(7) as f64 * 86_400.0 + seconds_of_day;
+    // 1980-01-06 is MJD 44244.
+    let mjd = days + 44_244;
+    Ok(vec![
+        format!(
+            "#dP{:4} {:>2} {:>2} {:>2} {:>2} {:11.8} {:>7} ORBIT IGS20 HLM  POD",
+            date.year(),
+            date.month(),
+            date.day(),
+            hour,
+            minute,
+            second,
+            n_epochs
+        ),
+        format!(
+            "## {:4} {:15.8} {:14.8} {:5} {:15.13}",
+            days.div_euclid(7),
+            seconds_of_week,
+            interval_s,
+            mjd,
+            seconds_of_day / 86_400.0
+        ),
+        format!("+    1   {sat_id:<3}                                                     "),
+        "++         5                                                                  "
+            .to_string(),
+        "%c L  cc UTC ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc".to_string(),
+        "%c cc cc ccc ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc".to_string(),
+        "%f  1.2500000  1.025000000  0.00000000000  0.000000000000000".to_string(),
+        "%f  0.0000000  0.000000000  0.00000000000  0.000000000000000".to_string(),
+        "%i    0    0    0    0      0      0      0      0         0".to_string(),
+        "%i    0    0    0    0      0      0      0      0         0".to_string(),
+        "/* siderust orbit product".to_string(),
+    ])
+}
+
 /// Build an SP3 record from an in-memory state series and write it to `w`.
 ///
 /// # Examples
@@ -73,49 +140,32 @@ pub fn write_sp3_from_states<W: Write>(
     w: &mut W,
     sat_id: &str,
     states: &[OrbitState],
-) -> Result<(), crate::formats::igs::sp3::Sp3Error> {
-    let header = vec![
-        format!(
-            "#dP2024  1  1  0  0  0.00000000      {:5} ORBIT IGS20 HLM  POD",
-            states.len()
-        ),
-        "##  2295      0.00000000   900.00000000 60310 0.0000000000000".to_string(),
-        format!("+    1   {sat_id:<3}                                                     "),
-        "++         5                                                                  "
-            .to_string(),
-        "%c L  cc GPS ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc".to_string(),
-        "%c cc cc ccc ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc".to_string(),
-        "%f  1.2500000  1.025000000  0.00000000000  0.000000000000000".to_string(),
-        "%f  0.0000000  0.000000000  0.00000000000  0.000000000000000".to_string(),
-        "%i    0    0    0    0      0      0      0      0         0".to_string(),
-        "%i    0    0    0    0      0      0      0      0         0".to_string(),
-        "/* siderust orbit product".to_string(),
-    ];
-    let epochs = states
+) -> Result<(), Sp3Error> {
+    let epochs: Vec<Sp3Epoch> = states
         .iter()
-        .map(|s| {
-            // SP3 epochs are UTC; orbit states carry TT internally.
-            let epoch_utc: Time<UTC> =
-                JulianDate::try_new(Day::new(s.epoch.to::<tempoch::JD>().value()))
-                    .expect("OrbitState epoch must be finite")
-                    .to_scale::<UTC>()
-                    .into();
-            Sp3Epoch {
-                time: epoch_utc,
-                positions: vec![Sp3Position {
-                    sat_id: sat_id.to_string(),
-                    // Sp3Position.position is cartesian::Position<EarthCenter, GCRS, Kilometer>
-                    // where EarthCenter is crate::formats::igs::sp3::EarthCenter (Params = ()).
-                    position: cartesian::Position::<EarthCenter, GCRS, Kilometer>::new(
-                        s.position.x().value(),
-                        s.position.y().value(),
-                        s.position.z().value(),
-                    ),
-                    clock: Microseconds::new(999_999.999_999),
-                }],
-            }
+        .map(|s| Sp3Epoch {
+            time: s.epoch.to_scale::<UTC>().into(),
+            positions: vec![Sp3Position {
+                sat_id: sat_id.to_string(),
+                position: cartesian::Position::<EarthCenter, GCRS, Kilometer>::new(
+                    s.position.x().value(),
+                    s.position.y().value(),
+                    s.position.z().value(),
+                ),
+                clock: Microseconds::new(999_999.999_999),
+            }],
         })
         .collect();
+    let interval_s = match states {
+        [first, second, ..] => (second.epoch - first.epoch).value(),
+        _ => 0.0,
+    };
+    let header = sp3_header(
+        sat_id,
+        epochs.first().map(|e| e.time),
+        epochs.len(),
+        interval_s,
+    )?;
     let rec = Sp3Record { header, epochs };
     write_sp3(w, &rec)
 }
-- 
2.43.0


From 187d21699b206912d6c0709c2e63c19246b3895f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:18 +0000
Subject: [PATCH 58/85] fix: OEM orbit products name the frame their GCRS
 states are in

---
 src/pod/product/orbit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pod/product/orbit.rs b/src/pod/product/orbit.rs
index 97aa23e..383b46e 100644
--- a/src/pod/product/orbit.rs
+++ b/src/pod/product/orbit.rs
@@ -204,7 +204,7 @@ pub fn write_oem_from_states<W: Write>(
     let meta = OemMetadata {
         object_id: object_id.into(),
         object_name: object_name.into(),
-        ref_frame: "EME2000".into(),
+        ref_frame: "GCRF".into(),
         time_system: "TT".into(),
         center_name: "EARTH".into(),
     };
-- 
2.43.0


From a91e7765661c8e9715f8fb7ded39405a567691e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:18 +0000
Subject: [PATCH 59/85] fix: run manifests order entries that share kind and
 path by content

---
 src/pod/run/manifest.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pod/run/manifest.rs b/src/pod/run/manifest.rs
index 43a56f6..c40b847 100644
--- a/src/pod/run/manifest.rs
+++ b/src/pod/run/manifest.rs
@@ -33,8 +33,11 @@ pub struct RunManifest {
 
 impl RunManifest {
     /// Sort inputs and outputs into the canonical order. Call before serialising.
+    ///
+    /// Entries that share `(kind, path)` are ordered by digest and size, so the
+    /// result does not depend on the order in which they were recorded.
     pub fn canonicalize(&mut self) {
-        let key = |d: &DatasetRef| (d.kind.clone(), d.path.clone());
+        let key = |d: &DatasetRef| (d.kind.clone(), d.path.clone(), d.sha256.clone(), d.bytes);
         self.inputs.sort_by_key(key);
         self.outputs.sort_by_key(&key);
     }
-- 
2.43.0


From bb13fdc5b7a2751b861536c9f8a717980016831c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:43 +0000
Subject: [PATCH 60/85] fix: residual CSV quotes text fields that hold
 separators

---
 src/pod/product/residuals_csv.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/pod/product/residuals_csv.rs b/src/pod/product/residuals_csv.rs
index 2ce7cca..95bd2bc 100644
--- a/src/pod/product/residuals_csv.rs
+++ b/src/pod/product/residuals_csv.rs
@@ -29,6 +29,7 @@
 
 use super::error::PodProductsError;
 use serde::{Deserialize, Serialize};
+use std::borrow::Cow;
 use std::io::Write;
 
 /// One residual record in the standard POD column format.
@@ -125,7 +126,12 @@ impl<W: Write> ResidualCsvWriter<W> {
         writeln!(
             self.writer,
             "{:.9},{},{},{:.6},{:.6},{}",
-            r.epoch_jd_tt, r.obs_type, r.satellite, r.residual_m, r.sigma_m, r.rejected,
+            r.epoch_jd_tt,
+            csv_field(&r.obs_type),
+            csv_field(&r.satellite),
+            r.residual_m,
+            r.sigma_m,
+            r.rejected,
         )?;
         self.writer.flush()?;
         Ok(())
@@ -145,6 +151,16 @@ impl<W: Write> ResidualCsvWriter<W> {
     }
 }
 
+/// Quote a text field as RFC 4180 requires when it holds a separator, a quote
+/// or a line break.
+fn csv_field(text: &str) -> Cow<'_, str> {
+    if text.contains([',', '"', '\n', '\r']) {
+        Cow::Owned(format!("\"{}\"", text.replace('"', "\"\"")))
+    } else {
+        Cow::Borrowed(text)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 72a4ef8f0ca1e3e0142f8dcbd86fa39f385eeebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:11 +0000
Subject: [PATCH 61/85] fix: relativistic satellite clock term is in metres and
 enters the range with the sign of the satellite clock

---
 src/pod/observation/gnss_obs.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/pod/observation/gnss_obs.rs b/src/pod/observation/gnss_obs.rs
index 7a8807e..8b84cd5 100644
--- a/src/pod/observation/gnss_obs.rs
+++ b/src/pod/observation/gnss_obs.rs
@@ -16,7 +16,7 @@
 //! | T    | Saastamoinen tropospheric model (dry + wet, elevation-dependent) |
 //! | I    | Klobuchar or iono-free combination |
 //! | Sagnac | Earth-rotation correction (LEO/MEO regime) |
-//! | Rel  | Relativistic GPS clock term (−2·r·v/c) |
+//! | Rel  | Relativistic part of the satellite clock, `c·Δt_r = −2·r·v/c` (added to `c·dt_s`) |
 //!
 //! ### Carrier phase
 //! `L = ρ + c·(dt_r − dt_s) + T − I + λ·N + ε`
@@ -233,12 +233,14 @@ fn sagnac_km(gps_pos_km: Position<GCRS>, rx_pos_km: Position<GCRS>) -> f64 {
         / c_km_s
 }
 
-/// Relativistic GPS satellite clock correction in metres.
+/// Relativistic GPS satellite clock correction `c·Δt_r = −2·r·v/c` in metres
+/// (IS-GPS-200 §20.3.3.3.3.1); it is part of the satellite clock offset.
 fn relativistic_gps_clock_m(pos_km: Position<GCRS>, vel_km_s: Velocity<GCRS>) -> f64 {
     let dot = pos_km.x().value() * vel_km_s.x().value()
         + pos_km.y().value() * vel_km_s.y().value()
         + pos_km.z().value() * vel_km_s.z().value();
-    -2.0 * dot * 1_000.0 / C.value()
+    // km · km/s → m²/s
+    -2.0 * dot * 1.0e6 / C.value()
 }
 
 /// Compute geometric range (m) and receiver-to-satellite unit vector.
@@ -265,7 +267,7 @@ fn geometric_range_m(state: &CartesianState, sat_pos_km: Position<GCRS>) -> (f64
 ///
 /// The measurement equation is:
 /// ```text
-/// P = ρ + c·(dt_r − dt_s) + T + I + Sagnac + Rel + ε
+/// P = ρ + c·(dt_r − dt_s) + T + I + Sagnac − Rel + ε
 /// ```
 ///
 /// `residual` returns `measured_m − modelled_m` (O−C residual, metres).
@@ -368,7 +370,7 @@ impl Observation for GnssPseudorangeObs {
             .gnss_satellite_clock_m(&self.prn, self.epoch)
             .value();
 
-        let modelled = rho_m + dt_r - dt_s + trop_m + iono_m + sagnac_m + rel_m;
+        let modelled = rho_m + dt_r - dt_s + trop_m + iono_m + sagnac_m - rel_m;
         Ok(self.measured_m.value() - modelled)
     }
 
@@ -502,7 +504,7 @@ impl Observation for GnssCarrierPhaseObs {
         let ambiguity_m = self.integer_ambiguity as f64 * wavelength_m;
 
         // Phase: L = ρ + c·(dt_r - dt_s) + T - I + λN
-        let modelled = rho_m + dt_r - dt_s + trop_m - iono_m + sagnac_m + rel_m + ambiguity_m;
+        let modelled = rho_m + dt_r - dt_s + trop_m - iono_m + sagnac_m - rel_m + ambiguity_m;
         let residual_m = self.measured_m.value() - modelled;
 
         Ok(PhaseResidual {
-- 
2.43.0


From eb3cae8b7b1d56c6881f10c2fb2ad05bdec000f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:08 +0000
Subject: [PATCH 62/85] fix: report horizontal altitude and azimuth in their
 own fields in the C interface

---
 siderust-ffi/src/coordinates.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/siderust-ffi/src/coordinates.rs b/siderust-ffi/src/coordinates.rs
index ec63a04..54d104f 100644
--- a/siderust-ffi/src/coordinates.rs
+++ b/siderust-ffi/src/coordinates.rs
@@ -333,7 +333,7 @@ pub extern "C" fn siderust_spherical_dir_to_horizontal(
         }
 
         let site = observer.to_rust();
-        let (az, alt) = match with_spherical_dir_in_frame!(
+        let (alt, az) = match with_spherical_dir_in_frame!(
             src_frame,
             polar_deg,
             azimuth_deg,
@@ -373,7 +373,7 @@ pub extern "C" fn siderust_spherical_dir_to_horizontal_precise(
         }
 
         let site = observer.to_rust();
-        let (az, alt) = match with_spherical_dir_in_frame!(
+        let (alt, az) = match with_spherical_dir_in_frame!(
             src_frame,
             polar_deg,
             azimuth_deg,
@@ -423,7 +423,7 @@ pub extern "C" fn siderust_spherical_dir_to_horizontal_precise_with_context(
         };
 
         let site = observer.to_rust();
-        let (az, alt) = match with_spherical_dir_in_frame!(
+        let (alt, az) = match with_spherical_dir_in_frame!(
             src_frame,
             polar_deg,
             azimuth_deg,
-- 
2.43.0


From 0c73b89dec776705c64e44ba870a41d9df1e183f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:34 +0000
Subject: [PATCH 63/85] fix: keep longitude and latitude in order for ICRF
 targets in the C interface

---
 siderust-ffi/src/target.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/siderust-ffi/src/target.rs b/siderust-ffi/src/target.rs
index a1dc157..9416390 100644
--- a/siderust-ffi/src/target.rs
+++ b/siderust-ffi/src/target.rs
@@ -81,8 +81,8 @@ fn icrs_direction_from_spherical_dir(
             Degrees::new(dir.polar_deg),
         )),
         SiderustFrame::ICRF => Ok(spherical::Direction::<ICRF>::new_unchecked(
-            Degrees::new(dir.azimuth_deg),
             Degrees::new(dir.polar_deg),
+            Degrees::new(dir.azimuth_deg),
         )
         .to_frame::<ICRS>(&jd)),
         SiderustFrame::EclipticMeanJ2000 => Ok(spherical::Direction::<EclipticMeanJ2000>::new(
-- 
2.43.0


From b82ee46d5fea4d4a5bb57e284812b58375ea5e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:03 +0000
Subject: [PATCH 64/85] fix: propagate geocentric orbits about the Earth in the
 C interface

---
 siderust-ffi/src/coordinates.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/siderust-ffi/src/coordinates.rs b/siderust-ffi/src/coordinates.rs
index 54d104f..bbb8b83 100644
--- a/siderust-ffi/src/coordinates.rs
+++ b/siderust-ffi/src/coordinates.rs
@@ -16,6 +16,7 @@ use qtty::unit::{AstronomicalUnit, Meter};
 use qtty::*;
 use siderust::astro::nutation::{Iau2000A, Iau2000B, Iau2006, Iau2006A};
 use siderust::coordinates::centers::Barycentric;
+use siderust::astro::dynamics::units::{GravitationalParameter, GM_EARTH, GM_SUN};
 use siderust::coordinates::frames::{
     EclipticMeanJ2000, EquatorialMeanJ2000, EquatorialMeanOfDate, EquatorialTrueOfDate,
     ReferenceFrame, ICRF, ICRS,
@@ -1074,6 +1075,19 @@ fn orbit_ref_center_to_siderust(orbit_center: SiderustOrbitRefCenter) -> Option<
     }
 }
 
+/// Gravitational parameter of the body an orbit is described about: the Earth
+/// for geocentric elements, the Sun otherwise (the same choice as
+/// `BodycentricParams`).
+fn orbit_ref_center_mu(
+    orbit_center: SiderustOrbitRefCenter,
+) -> Result<GravitationalParameter, SiderustStatus> {
+    match orbit_center {
+        0 | 1 => Ok(GM_SUN),
+        2 => Ok(GM_EARTH),
+        _ => Err(SiderustStatus::InvalidCenter),
+    }
+}
+
 /// Compute the Keplerian orbital position at a given Julian date, with
 /// explicit output center semantics.
 ///
@@ -1096,7 +1110,8 @@ pub extern "C" fn siderust_kepler_position_ex(
             None => return SiderustStatus::InvalidCenter,
         };
         let orbit = ffi_try!(orbit.try_to_rust());
-        let pos = orbit.kepler_position(ffi_try!(crate::ffi_utils::jd_from_f64(jd)));
+        let mu = ffi_try!(orbit_ref_center_mu(orbit_center));
+        let pos = orbit.position_with_mu(ffi_try!(crate::ffi_utils::jd_from_f64(jd)), mu);
         write_ecliptic_au_position(out, pos, center);
         SiderustStatus::Ok
 
@@ -1262,7 +1277,9 @@ pub extern "C" fn siderust_to_bodycentric(
 
         // Keplerian position of the body in its own orbit's reference center
         let orbit = ffi_try!(params.orbit.try_to_rust());
-        let body_kep = orbit.kepler_position(ffi_try!(crate::ffi_utils::jd_from_f64(jd)));
+        let mu = ffi_try!(orbit_ref_center_mu(params.orbit_center));
+        let body_kep =
+            orbit.position_with_mu(ffi_try!(crate::ffi_utils::jd_from_f64(jd)), mu);
         let (bkx, bky, bkz) = (
             body_kep.x().value(),
             body_kep.y().value(),
@@ -1312,7 +1329,9 @@ pub extern "C" fn siderust_from_bodycentric(
 
         // Keplerian position of the body in its own orbit's reference center
         let orbit = ffi_try!(params.orbit.try_to_rust());
-        let body_kep = orbit.kepler_position(ffi_try!(crate::ffi_utils::jd_from_f64(jd)));
+        let mu = ffi_try!(orbit_ref_center_mu(params.orbit_center));
+        let body_kep =
+            orbit.position_with_mu(ffi_try!(crate::ffi_utils::jd_from_f64(jd)), mu);
         let (bkx, bky, bkz) = (
             body_kep.x().value(),
             body_kep.y().value(),
-- 
2.43.0


From 29a17408f7e2f4c12ff4f852672834354fe4845f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:29 +0000
Subject: [PATCH 65/85] fix: honour frame and length unit in the C centre-shift
 functions

---
 siderust-ffi/src/coordinates.rs | 67 ++++++++++++++++++++++++---------
 1 file changed, 50 insertions(+), 17 deletions(-)

diff --git a/siderust-ffi/src/coordinates.rs b/siderust-ffi/src/coordinates.rs
index bbb8b83..4500a9d 100644
--- a/siderust-ffi/src/coordinates.rs
+++ b/siderust-ffi/src/coordinates.rs
@@ -988,6 +988,18 @@ fn shift_center_xyz(
     })
 }
 
+/// Number of `unit`s in one astronomical unit.
+fn length_units_per_au(unit: SiderustLengthUnit) -> f64 {
+    let au = AstronomicalUnits::new(1.0);
+    match unit {
+        SiderustLengthUnit::AU => 1.0,
+        SiderustLengthUnit::Km => au.to::<qtty::unit::Kilometer>().value(),
+        SiderustLengthUnit::LightYear => au.to::<qtty::unit::LightYear>().value(),
+        SiderustLengthUnit::Parsec => au.to::<qtty::unit::Parsec>().value(),
+        SiderustLengthUnit::Meter => au.to::<Meter>().value(),
+    }
+}
+
 /// Map SiderustCenter enum values to the internal shift_center_xyz codes.
 fn center_to_shift_code(c: SiderustCenter) -> Option<u8> {
     match c {
@@ -1002,7 +1014,9 @@ fn center_to_shift_code(c: SiderustCenter) -> Option<u8> {
 /// (frame-only, same frame).
 ///
 /// Only works for EclipticMeanJ2000 frame positions.  The input frame must
-/// already be EclipticMeanJ2000; this function performs only the center shift.
+/// already be EclipticMeanJ2000 (a change of center in any other frame is
+/// refused with InvalidFrame); this function performs only the center shift,
+/// in the length unit of `pos`.
 ///
 /// Supported centers: Barycentric, Heliocentric, Geocentric.
 #[no_mangle]
@@ -1026,15 +1040,19 @@ pub extern "C" fn siderust_cartesian_pos_transform_center(
             None => return SiderustStatus::InvalidCenter,
         };
 
-        let (ox, oy, oz) =
-            ffi_try!(shift_center_xyz(pos.x, pos.y, pos.z, from_code, to_code, jd));
+        // The shift between two centers is known in EclipticMeanJ2000 only.
+        if from_code != to_code && pos.frame != SiderustFrame::EclipticMeanJ2000 {
+            return SiderustStatus::InvalidFrame;
+        }
+        let per_au = length_units_per_au(pos.length_unit);
+        let (sx, sy, sz) = ffi_try!(shift_center_xyz(0.0, 0.0, 0.0, from_code, to_code, jd));
 
         // SAFETY: raw-pointer use follows this function's C ABI preconditions.
         unsafe {
             *out = SiderustCartesianPos {
-                x: ox,
-                y: oy,
-                z: oz,
+                x: pos.x + sx * per_au,
+                y: pos.y + sy * per_au,
+                z: pos.z + sz * per_au,
                 frame: pos.frame,
                 center: dst_center,
                 length_unit: pos.length_unit,
@@ -1250,11 +1268,13 @@ pub extern "C" fn siderust_prepared_orbit_destroy(
 ///
 /// Mirrors Rust's `ToBodycentricExt::to_bodycentric()`.
 ///
-/// `pos`    – source position in EclipticMeanJ2000 / AU.  Center must be
+/// `pos`    – source position in EclipticMeanJ2000 (any length unit; other
+///            frames are refused with InvalidFrame).  Center must be
 ///            Geocentric, Heliocentric, or Barycentric.
 /// `params` – Keplerian orbit + reference center of the body.
 /// `jd`     – Julian Date for Keplerian propagation and center-shift.
-/// `out`    – relative position in EclipticMeanJ2000 / AU with center Bodycentric.
+/// `out`    – relative position in EclipticMeanJ2000, in the length unit of `pos`,
+///            with center Bodycentric.
 #[no_mangle]
 pub extern "C" fn siderust_to_bodycentric(
     pos: SiderustCartesianPos,
@@ -1267,6 +1287,10 @@ pub extern "C" fn siderust_to_bodycentric(
             return SiderustStatus::NullPointer;
         }
 
+        if pos.frame != SiderustFrame::EclipticMeanJ2000 {
+            return SiderustStatus::InvalidFrame;
+        }
+
         // Map SiderustCenter → OrbitReferenceCenter coding (0=Bary,1=Helio,2=Geo)
         let input_center: u8 = match pos.center {
             SiderustCenter::Barycentric => 0,
@@ -1290,13 +1314,15 @@ pub extern "C" fn siderust_to_bodycentric(
         let (body_x, body_y, body_z) =
             ffi_try!(shift_center_xyz(bkx, bky, bkz, params.orbit_center, input_center, jd));
 
+        let per_au = length_units_per_au(pos.length_unit);
+
         // Relative position: input – body (vector from body to target)
         // SAFETY: raw-pointer use follows this function's C ABI preconditions.
         unsafe {
             *out = SiderustCartesianPos {
-                x: pos.x - body_x,
-                y: pos.y - body_y,
-                z: pos.z - body_z,
+                x: pos.x - body_x * per_au,
+                y: pos.y - body_y * per_au,
+                z: pos.z - body_z * per_au,
                 frame: pos.frame,
                 center: SiderustCenter::Bodycentric,
                 length_unit: pos.length_unit,
@@ -1311,10 +1337,12 @@ pub extern "C" fn siderust_to_bodycentric(
 ///
 /// Mirrors Rust's `FromBodycentricExt::to_geocentric()`.
 ///
-/// `pos`    – body-centric position in EclipticMeanJ2000 / AU.
+/// `pos`    – body-centric position in EclipticMeanJ2000 (any length unit; other
+///            frames are refused with InvalidFrame).
 /// `params` – same orbital parameters used during `siderust_to_bodycentric`.
 /// `jd`     – same Julian Date used during `siderust_to_bodycentric`.
-/// `out`    – recovered geocentric position in EclipticMeanJ2000 / AU.
+/// `out`    – recovered geocentric position in EclipticMeanJ2000, in the length
+///            unit of `pos`.
 #[no_mangle]
 pub extern "C" fn siderust_from_bodycentric(
     pos: SiderustCartesianPos,
@@ -1338,6 +1366,11 @@ pub extern "C" fn siderust_from_bodycentric(
             body_kep.z().value(),
         );
 
+        if pos.frame != SiderustFrame::EclipticMeanJ2000 {
+            return SiderustStatus::InvalidFrame;
+        }
+        let per_au = length_units_per_au(pos.length_unit);
+
         // Convert body position to geocentric (target center code = 2)
         let (body_geo_x, body_geo_y, body_geo_z) =
             ffi_try!(shift_center_xyz(bkx, bky, bkz, params.orbit_center, 2, jd));
@@ -1346,12 +1379,12 @@ pub extern "C" fn siderust_from_bodycentric(
         // SAFETY: raw-pointer use follows this function's C ABI preconditions.
         unsafe {
             *out = SiderustCartesianPos {
-                x: pos.x + body_geo_x,
-                y: pos.y + body_geo_y,
-                z: pos.z + body_geo_z,
+                x: pos.x + body_geo_x * per_au,
+                y: pos.y + body_geo_y * per_au,
+                z: pos.z + body_geo_z * per_au,
                 frame: pos.frame,
                 center: SiderustCenter::Geocentric,
-            length_unit: SiderustLengthUnit::AU,
+                length_unit: pos.length_unit,
             };
         }
         SiderustStatus::Ok
-- 
2.43.0


From 71c19e7f9b32f5261437dcc3072fc1521de2494e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:58 +0000
Subject: [PATCH 66/85] fix: refuse non-ICRS directions as ICRS subjects in the
 C interface

---
 siderust-ffi/src/ffi_utils.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/siderust-ffi/src/ffi_utils.rs b/siderust-ffi/src/ffi_utils.rs
index 0fe3545..147fed2 100644
--- a/siderust-ffi/src/ffi_utils.rs
+++ b/siderust-ffi/src/ffi_utils.rs
@@ -177,6 +177,9 @@ macro_rules! dispatch_subject {
                 $action
             }
             $crate::types::SiderustSubjectKind::Icrs => {
+                if __subj.icrs_dir.frame != $crate::types::SiderustFrame::ICRS {
+                    return $crate::error::SiderustStatus::InvalidFrame;
+                }
                 let __icrs_owned = siderust::coordinates::spherical::direction::ICRS::new(
                     qtty::angular::Degrees::new(__subj.icrs_dir.azimuth_deg),
                     qtty::angular::Degrees::new(__subj.icrs_dir.polar_deg),
-- 
2.43.0


From cf933c5ac516cf000c6e28ac9466c972c819cba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:24 +0000
Subject: [PATCH 67/85] fix: validate the phase-search tolerance in the C
 interface

---
 siderust-ffi/src/phase.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/siderust-ffi/src/phase.rs b/siderust-ffi/src/phase.rs
index d25d50a..8224298 100644
--- a/siderust-ffi/src/phase.rs
+++ b/siderust-ffi/src/phase.rs
@@ -8,7 +8,6 @@ use crate::error::SiderustStatus;
 use crate::ffi_utils::{free_boxed_slice, vec_to_c};
 use crate::types::*;
 use qtty::angular::Radians;
-use qtty::time::Days;
 use qtty::unit::Degree;
 use qtty::*;
 use siderust::ephemeris::Vsop87Ephemeris;
@@ -43,11 +42,11 @@ fn phase_kind_from_rust(k: PhaseKind) -> SiderustPhaseKind {
     }
 }
 
-fn search_opts_to_phase(opts: SiderustSearchOpts) -> PhaseSearchOpts {
-    PhaseSearchOpts {
-        time_tolerance: Days::new(opts.time_tolerance_days),
+fn search_opts_to_phase(opts: SiderustSearchOpts) -> Result<PhaseSearchOpts, SiderustStatus> {
+    Ok(PhaseSearchOpts {
+        time_tolerance: opts.try_to_rust()?.time_tolerance,
         scan_step: PhaseSearchOpts::default().scan_step,
-    }
+    })
 }
 
 // ═══════════════════════════════════════════════════════════════════════════
@@ -159,7 +158,7 @@ pub extern "C" fn siderust_find_phase_events(
             Ok(w) => w,
             Err(e) => return e,
         };
-        let events = find_phase_events::<Vsop87Ephemeris>(window, search_opts_to_phase(opts));
+        let events = find_phase_events::<Vsop87Ephemeris>(window, ffi_try!(search_opts_to_phase(opts)));
         vec_to_c(
             events,
             |e| SiderustPhaseEvent {
@@ -196,7 +195,7 @@ pub extern "C" fn siderust_moon_illumination_above(
             illumination_above::<Vsop87Ephemeris>(
                 window,
                 IlluminationFractions::new(k_min),
-                search_opts_to_phase(opts),
+                ffi_try!(search_opts_to_phase(opts)),
             ),
             out,
             count,
@@ -223,7 +222,7 @@ pub extern "C" fn siderust_moon_illumination_below(
             illumination_below::<Vsop87Ephemeris>(
                 window,
                 IlluminationFractions::new(k_max),
-                search_opts_to_phase(opts),
+                ffi_try!(search_opts_to_phase(opts)),
             ),
             out,
             count,
@@ -252,7 +251,7 @@ pub extern "C" fn siderust_moon_illumination_range(
                 window,
                 IlluminationFractions::new(k_min),
                 IlluminationFractions::new(k_max),
-                search_opts_to_phase(opts),
+                ffi_try!(search_opts_to_phase(opts)),
             ),
             out,
             count,
-- 
2.43.0


From f776c309af436b9ef2956eef5babaf849d3ecd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:53 +0000
Subject: [PATCH 68/85] fix: refuse non-finite sky-grid bounds in the C
 interface

---
 siderust-ffi/src/sampling.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/siderust-ffi/src/sampling.rs b/siderust-ffi/src/sampling.rs
index 9cccc00..f288f3b 100644
--- a/siderust-ffi/src/sampling.rs
+++ b/siderust-ffi/src/sampling.rs
@@ -66,6 +66,9 @@ pub unsafe extern "C" fn siderust_sky_grid_cells(
         if out.is_null() || count.is_null() {
             return SiderustStatus::NullPointer;
         }
+        if ![alt_min_deg, alt_max_deg, alt_step_deg, az_step_deg].iter().all(|x| x.is_finite()) {
+            return SiderustStatus::InvalidArgument;
+        }
         let base = if equal_area {
             SkyGrid::equal_area(Degrees::new(alt_step_deg), Degrees::new(az_step_deg))
         } else {
-- 
2.43.0


From f78a540c0bdccb5897a7c00f68786c53a63e8c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:20 +0000
Subject: [PATCH 69/85] fix: refuse a non-finite SGP4 target date in the C
 interface

---
 siderust-ffi/src/sgp4.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/siderust-ffi/src/sgp4.rs b/siderust-ffi/src/sgp4.rs
index 9ee53bc..5ec37d9 100644
--- a/siderust-ffi/src/sgp4.rs
+++ b/siderust-ffi/src/sgp4.rs
@@ -280,6 +280,9 @@ pub extern "C" fn siderust_sgp4_propagate_at(
         }
         let sgp4 = unsafe { &*sgp4 };
 
+        if !jd_utc.is_finite() {
+            return SiderustStatus::InvalidArgument;
+        }
         let target = match JulianDate::<UTC>::try_new(Quantity::<Day>::new(jd_utc)) {
             Ok(jd) => jd,
             Err(_) => return SiderustStatus::InvalidArgument,
-- 
2.43.0


From 6a055191f21c2e9163db5ee8fcbf2ad05614e557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:59 +0000
Subject: [PATCH 70/85] fix: polar motion matrix multiplied its factors in the
 wrong order

---
 src/astro/polar_motion.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/astro/polar_motion.rs b/src/astro/polar_motion.rs
index ac36b89..1a5fa9a 100644
--- a/src/astro/polar_motion.rs
+++ b/src/astro/polar_motion.rs
@@ -23,7 +23,7 @@
 //! The polar-motion matrix is assembled as
 //!
 //! ```text
-//! W = R₃(−s') · R₂(xₚ) · R₁(yₚ)
+//! W = R₁(−yₚ) · R₂(−xₚ) · R₃(s')
 //! ```
 //!
 //! where `s'` is the TIO locator, here implemented as the linear-in-time
@@ -60,17 +60,19 @@ pub fn tio_locator_sp(jd_tt: JulianDate) -> Radians {
 /// Polar motion matrix **W**.
 ///
 /// Transforms from TIRS to ITRS (or equivalently, from the intermediate
-/// frame to the Earth-fixed frame):
+/// frame to the Earth-fixed frame); with the IERS passive rotations `Rᵢ`:
 ///
 /// ```text
-/// W = R₃(−s') · R₂(xₚ) · R₁(yₚ)
+/// W = R₁(−yₚ) · R₂(−xₚ) · R₃(s')
 /// ```
 ///
+/// i.e. the inverse of the ITRS-to-TIRS product `R₃(−s') · R₂(xₚ) · R₁(yₚ)`.
+///
 /// ## References
 /// * IERS Conventions (2010), §5.4.2
 /// * SOFA routine `iauPom00`
 pub fn polar_motion_matrix(xp: Radians, yp: Radians, sp: Radians) -> Rotation3 {
-    Rotation3::rz(-sp) * Rotation3::ry(xp) * Rotation3::rx(yp)
+    Rotation3::rx(yp) * Rotation3::ry(xp) * Rotation3::rz(-sp)
 }
 
 /// Convenience: compute W from pole coordinates as [`Arcseconds`] and Julian Date.
-- 
2.43.0


From 831189cee0ef24546fe1f1361e446bc31464ce31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:21 +0000
Subject: [PATCH 71/85] fix: radial velocity was converted to AU per civil year
 but multiplied by Julian years

---
 src/astro/proper_motion.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/astro/proper_motion.rs b/src/astro/proper_motion.rs
index 5a3f9bf..8a15405 100644
--- a/src/astro/proper_motion.rs
+++ b/src/astro/proper_motion.rs
@@ -331,10 +331,10 @@ pub fn propagate_space_motion(
     let v_alpha_au_yr = pm_ra_rad_yr * r_au * cos_d;
     let v_delta_au_yr = pm_dec_rad_yr * r_au;
 
-    // Radial velocity in AU/yr (positive = away).
+    // Radial velocity in AU per Julian year (positive = away), the year of Δt.
     let v_r_au_yr = motion
         .radial_velocity
-        .to::<Per<AstronomicalUnit, Year>>()
+        .to::<Per<AstronomicalUnit, qtty::time::JulianYear>>()
         .value();
 
     // BCRS velocity vector in AU/yr.
-- 
2.43.0


From 1fe0ec8c23381f2525f8c57c3151c8b5af6ab51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:39 +0000
Subject: [PATCH 72/85] fix: reflected moonlight fell off with the fourth power
 of the Moon distance

---
 src/event/lunar/photometry.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/event/lunar/photometry.rs b/src/event/lunar/photometry.rs
index e1e575a..6110a6b 100644
--- a/src/event/lunar/photometry.rs
+++ b/src/event/lunar/photometry.rs
@@ -128,7 +128,8 @@ pub fn reflected_lunar_spectral_radiance_jones2013(
         return WattsPerSquareMeterSteradianNanometer::new(f64::NAN);
     }
     let albedo = lunar_albedo_jones2013(phase_angle, wavelength).value();
-    let radius_ratio: f64 = MEAN_MOON_RADIUS / moon_distance;
+    // Solid angle at the mean distance; the actual distance enters once, below.
+    let radius_ratio: f64 = MEAN_MOON_RADIUS / MEAN_MOON_DISTANCE;
     let omega_over_pi = radius_ratio.powi(2);
     let distance_ratio: f64 = MEAN_MOON_DISTANCE / moon_distance;
     let distance_scale = distance_ratio.powi(2);
-- 
2.43.0


From d9a0b8f38a7f55ea52b61fc14a5898bf51b0fd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:44 +0000
Subject: [PATCH 73/85] fix: reflected moonlight is NaN for any non-finite
 input, as documented

---
 src/event/lunar/photometry.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/event/lunar/photometry.rs b/src/event/lunar/photometry.rs
index 6110a6b..3096dd0 100644
--- a/src/event/lunar/photometry.rs
+++ b/src/event/lunar/photometry.rs
@@ -124,7 +124,12 @@ pub fn reflected_lunar_spectral_radiance_jones2013(
     moon_distance: Kilometers,
 ) -> WattsPerSquareMeterSteradianNanometer {
     let distance = moon_distance.value();
-    if !solar_irradiance_w_m2_nm.is_finite() || !distance.is_finite() || distance <= 0.0 {
+    if !solar_irradiance_w_m2_nm.is_finite()
+        || !wavelength.is_finite()
+        || !phase_angle.is_finite()
+        || !distance.is_finite()
+        || distance <= 0.0
+    {
         return WattsPerSquareMeterSteradianNanometer::new(f64::NAN);
     }
     let albedo = lunar_albedo_jones2013(phase_angle, wavelength).value();
-- 
2.43.0


From 3a1937b371981cbd07277bb80dd5c64747e08ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:36 +0000
Subject: [PATCH 74/85] fix: declination of the SUN constant was -23 hours
 instead of -23 degrees

---
 src/bodies/solar_system.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bodies/solar_system.rs b/src/bodies/solar_system.rs
index 6b4f470..4347d45 100644
--- a/src/bodies/solar_system.rs
+++ b/src/bodies/solar_system.rs
@@ -234,7 +234,7 @@ pub const SUN: super::Star<'static> = super::Star::new_const(
     L_SUN,
     CoordinateWithPM::<EquatorialMeanJ2000<LightYear>>::new_static(
         EquatorialMeanJ2000::<LightYear>::new_unchecked(
-            HourAngles::from_hms(-23, 0, 0.0).to_const::<Degree>(), // Dec (polar) Approx at J2000
+            Degrees::new(-23.0), // Dec (polar) Approx at J2000
             HourAngles::from_hms(18, 44, 48.0).to_const::<Degree>(), // RA (azimuth) Approx at J2000
             LightYears::new(1.58125e-5), // 1 AstronomicalUnits in LightYears
         ),
-- 
2.43.0


From e5da257ca171e7ec19b0be7c5231fd7c8b4910db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:41 +0000
Subject: [PATCH 75/85] fix: PlanetBuilder::build_unchecked dropped the albedo

---
 src/bodies/planets.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bodies/planets.rs b/src/bodies/planets.rs
index 87b9ac2..8bf57fc 100644
--- a/src/bodies/planets.rs
+++ b/src/bodies/planets.rs
@@ -187,7 +187,7 @@ impl PlanetBuilder {
                 mass,
                 radius,
                 orbit,
-                albedo: None,
+                albedo: self.albedo,
             },
             _ => panic!("PlanetBuilder::build_unchecked called with missing fields"),
         }
-- 
2.43.0


From 8c8d8fffea0af92bbef95cff12845f5ff163dbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:29 +0000
Subject: [PATCH 76/85] fix: the Sun-Earth L2 constant lay on the far side of
 the Sun

---
 src/bodies/solar_system.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bodies/solar_system.rs b/src/bodies/solar_system.rs
index 4347d45..dc706cf 100644
--- a/src/bodies/solar_system.rs
+++ b/src/bodies/solar_system.rs
@@ -731,8 +731,8 @@ const SUN_EARTH_L2: LagrangePoint = LagrangePoint {
     name: "Sun–Earth L2",
     parent_system: "Sun–Earth",
     position: EclipticMeanJ2000::<AstronomicalUnit>::new_unchecked(
-        Degrees::new(0.0),   // lat (polar)
-        Degrees::new(180.0), // lon (azimuth)
+        Degrees::new(0.0), // lat (polar)
+        Degrees::new(0.0), // lon (azimuth)
         AstronomicalUnits::new(1.01),
     ),
 };
-- 
2.43.0


From 0f691066ba1a857b52ae2614de5fbf4d97ae4fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:28 +0000
Subject: [PATCH 77/85] fix: semi-major axis of the HALE_BOPP constant
 contradicted its period and perihelion

---
 src/bodies/comet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bodies/comet.rs b/src/bodies/comet.rs
index c013212..8fe4233 100644
--- a/src/bodies/comet.rs
+++ b/src/bodies/comet.rs
@@ -196,7 +196,7 @@ pub const HALE_BOPP: Comet = Comet::new_const(
     "C/1995 O1 (Hale‑Bopp)",
     Kilometers::new(1.0e8),
     KeplerianOrbit::new(
-        AstronomicalUnits::new(286.538),
+        AstronomicalUnits::new(186.0),
         0.995_086,
         Degrees::new(89.425),
         Degrees::new(282.472),
-- 
2.43.0


From d9ced6cd07bf3b047d22fe641fed2ac37cde12bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:44 +0000
Subject: [PATCH 78/85] fix: mean anomalies of the comet presets and Bennu
 belonged to other epochs than J2000

---
 src/bodies/asteroid.rs | 2 +-
 src/bodies/comet.rs    | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bodies/asteroid.rs b/src/bodies/asteroid.rs
index 5c9cace..02b7113 100644
--- a/src/bodies/asteroid.rs
+++ b/src/bodies/asteroid.rs
@@ -200,7 +200,7 @@ pub const BENNU: Asteroid = Asteroid::new_const(
         Degrees::new(6.03494),
         Degrees::new(2.06084),
         Degrees::new(66.2221),
-        Degrees::new(101.703),
+        Degrees::new(29.43),
         crate::J2000,
     ),
 )
diff --git a/src/bodies/comet.rs b/src/bodies/comet.rs
index 8fe4233..1d5f5bf 100644
--- a/src/bodies/comet.rs
+++ b/src/bodies/comet.rs
@@ -169,7 +169,7 @@ pub const HALLEY: Comet = Comet::new_const(
         Degrees::new(162.262_69),
         Degrees::new(58.42008),
         Degrees::new(111.33249),
-        Degrees::new(38.384),
+        Degrees::new(66.448),
         crate::J2000,
     ),
     OrbitFrame::Heliocentric,
@@ -185,7 +185,7 @@ pub const ENCKE: Comet = Comet::new_const(
         Degrees::new(11.780),
         Degrees::new(334.568),
         Degrees::new(186.545),
-        Degrees::new(163.105),
+        Degrees::new(284.6),
         crate::J2000,
     ),
     OrbitFrame::Heliocentric,
@@ -201,7 +201,7 @@ pub const HALE_BOPP: Comet = Comet::new_const(
         Degrees::new(89.425),
         Degrees::new(282.472),
         Degrees::new(130.589),
-        Degrees::new(17.258),
+        Degrees::new(0.39),
         crate::J2000,
     ),
     OrbitFrame::Barycentric,
-- 
2.43.0


From f068e32404fa6a793463495272cfd26cb9766bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:27 +0000
Subject: [PATCH 79/85] fix: SPICE text kernels: += inside a value and doubled
 quotes

---
 src/formats/spice/text.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/formats/spice/text.rs b/src/formats/spice/text.rs
index 02d683c..f048fcd 100644
--- a/src/formats/spice/text.rs
+++ b/src/formats/spice/text.rs
@@ -174,10 +174,14 @@ fn statement_complete(statement: &str) -> bool {
 }
 
 fn parse_assignment(statement: &str) -> Result<(String, bool, TextValue), SpiceError> {
-    let (key, value, append) = if let Some(idx) = statement.find("+=") {
-        (&statement[..idx], &statement[idx + 2..], true)
-    } else if let Some(idx) = statement.find('=') {
-        (&statement[..idx], &statement[idx + 1..], false)
+    // The operator is the first `=`: a value may itself contain `+=`.
+    let (key, value, append) = if let Some(idx) = statement.find('=') {
+        let key = &statement[..idx];
+        let value = &statement[idx + 1..];
+        match key.strip_suffix('+') {
+            Some(key) => (key, value, true),
+            None => (key, value, false),
+        }
     } else {
         return Err(SpiceError::FormatParse(format!(
             "text kernel assignment missing '=': {statement}"
@@ -347,7 +351,11 @@ impl<'a> ValueParser<'a> {
         let mut out = String::new();
         while let Some(ch) = self.bump() {
             if ch == quote {
-                return Ok(TextValue::Text(out));
+                // A doubled quote stands for the quote character itself.
+                if self.peek() != Some(quote) {
+                    return Ok(TextValue::Text(out));
+                }
+                self.bump();
             }
             out.push(ch);
         }
-- 
2.43.0


From 4db91b88e63e9c3e27ee3e90f138ebd387751dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:20 +0000
Subject: [PATCH 80/85] fix: TKFRAME_*_MATRIX is listed in column order

---
 src/formats/spice/fk.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/formats/spice/fk.rs b/src/formats/spice/fk.rs
index 560757a..8a61436 100644
--- a/src/formats/spice/fk.rs
+++ b/src/formats/spice/fk.rs
@@ -138,10 +138,11 @@ impl FrameKernel {
                         )?
                         .to_ascii_uppercase();
                         Some((
+                            // Kernels list the matrix in column order.
                             TkSpec::Matrix([
-                                [values[0], values[1], values[2]],
-                                [values[3], values[4], values[5]],
-                                [values[6], values[7], values[8]],
+                                [values[0], values[3], values[6]],
+                                [values[1], values[4], values[7]],
+                                [values[2], values[5], values[8]],
                             ]),
                             relative,
                         ))
-- 
2.43.0


From 0615dc2d45b459bea65137aa9b8726a365db5981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:04 +0000
Subject: [PATCH 81/85] fix: SCLK coefficients of kernels that give the clock
 moduli

---
 src/formats/spice/sclk.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/formats/spice/sclk.rs b/src/formats/spice/sclk.rs
index 82e4783..a5621e2 100644
--- a/src/formats/spice/sclk.rs
+++ b/src/formats/spice/sclk.rs
@@ -12,7 +12,9 @@
 //! ## Technical scope
 //!
 //! Only text SCLK kernels with `SCLK01_COEFFICIENTS_<id>` entries are supported.
-//! Conversion is piecewise linear within each partition.
+//! Conversion is piecewise linear within each partition. Coefficient rates are
+//! seconds per most significant count when `SCLK01_MODULI_<id>` is present and
+//! ticks per second otherwise.
 //!
 //! ## References
 //!
@@ -72,12 +74,23 @@ impl SclkKernel {
                     "{key} must contain triples of (sclkdp, et, rate)"
                 )));
             }
+            // With the clock's moduli given, coefficients hold seconds per most
+            // significant count, which is the product of the other moduli in ticks.
+            let moduli_key = format!("SCLK01_MODULI_{sc_id}");
+            let ticks_per_count = kernel
+                .get(&moduli_key)
+                .map(|value| value_as_f64_array(value, &moduli_key))
+                .transpose()?
+                .map(|moduli| moduli.iter().skip(1).product::<f64>());
             let mut coefficients = Vec::with_capacity(values.len() / 3);
             for triple in values.chunks(3) {
                 coefficients.push(SclkCoeff {
                     sclkdp: triple[0],
                     et: triple[1],
-                    rate: triple[2],
+                    rate: match ticks_per_count {
+                        Some(ticks) => ticks / triple[2],
+                        None => triple[2],
+                    },
                 });
             }
             coefficients.sort_by(|left, right| left.et.total_cmp(&right.et));
-- 
2.43.0


From 2abe7b384f375b8397d7871b85092293603c172a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:23 +0000
Subject: [PATCH 82/85] fix: SPICE text kernels: a one-element list is a scalar

---
 src/formats/spice/fk.rs  | 2 ++
 src/formats/spice/ik.rs  | 2 ++
 src/formats/spice/lsk.rs | 1 +
 3 files changed, 5 insertions(+)

diff --git a/src/formats/spice/fk.rs b/src/formats/spice/fk.rs
index 8a61436..9dd097b 100644
--- a/src/formats/spice/fk.rs
+++ b/src/formats/spice/fk.rs
@@ -202,6 +202,7 @@ fn int_value(value: &TextValue, key: &str) -> Result<i32, SpiceError> {
             SpiceError::FormatParse(format!("{key} integer {number} does not fit in i32"))
         }),
         TextValue::Float(number) => Ok(*number as i32),
+        TextValue::Array(values) if values.len() == 1 => int_value(&values[0], key),
         other => Err(SpiceError::FormatParse(format!(
             "{key} must be numeric, got {other:?}"
         ))),
@@ -211,6 +212,7 @@ fn int_value(value: &TextValue, key: &str) -> Result<i32, SpiceError> {
 fn text_value<'a>(value: &'a TextValue, key: &str) -> Result<&'a str, SpiceError> {
     match value {
         TextValue::Text(text) => Ok(text.as_str()),
+        TextValue::Array(values) if values.len() == 1 => text_value(&values[0], key),
         other => Err(SpiceError::FormatParse(format!(
             "{key} must be text, got {other:?}"
         ))),
diff --git a/src/formats/spice/ik.rs b/src/formats/spice/ik.rs
index af16fd8..bce9f86 100644
--- a/src/formats/spice/ik.rs
+++ b/src/formats/spice/ik.rs
@@ -149,6 +149,7 @@ fn parse_shape(value: &TextValue, inst_id: i32) -> Result<FovShape, SpiceError>
 fn text_value<'a>(value: &'a TextValue, key: &str) -> Result<&'a str, SpiceError> {
     match value {
         TextValue::Text(text) => Ok(text.as_str()),
+        TextValue::Array(values) if values.len() == 1 => text_value(&values[0], key),
         other => Err(SpiceError::FormatParse(format!(
             "{key} must be text, got {other:?}"
         ))),
@@ -159,6 +160,7 @@ fn scalar_value(value: &TextValue, key: &str) -> Result<f64, SpiceError> {
     match value {
         TextValue::Integer(number) => Ok(*number as f64),
         TextValue::Float(number) => Ok(*number),
+        TextValue::Array(values) if values.len() == 1 => scalar_value(&values[0], key),
         other => Err(SpiceError::FormatParse(format!(
             "{key} must be numeric, got {other:?}"
         ))),
diff --git a/src/formats/spice/lsk.rs b/src/formats/spice/lsk.rs
index 078c678..588f098 100644
--- a/src/formats/spice/lsk.rs
+++ b/src/formats/spice/lsk.rs
@@ -100,6 +100,7 @@ fn scalar_as_f64(value: &TextValue, key: &str) -> Result<f64, SpiceError> {
     match value {
         TextValue::Integer(number) => Ok(*number as f64),
         TextValue::Float(number) => Ok(*number),
+        TextValue::Array(values) if values.len() == 1 => scalar_as_f64(&values[0], key),
         other => Err(SpiceError::FormatParse(format!(
             "{key} must be numeric, got {other:?}"
         ))),
-- 
2.43.0


From 10c3bf0960b6f2615ec9839545a409fbe89bbb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:12 +0000
Subject: [PATCH 83/85] fix: SCLK kernel keys carry the negated spacecraft ID

---
 src/formats/spice/sclk.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/formats/spice/sclk.rs b/src/formats/spice/sclk.rs
index a5621e2..c421253 100644
--- a/src/formats/spice/sclk.rs
+++ b/src/formats/spice/sclk.rs
@@ -95,7 +95,8 @@ impl SclkKernel {
             }
             coefficients.sort_by(|left, right| left.et.total_cmp(&right.et));
             out.push(Self {
-                sc_id,
+                // Keys carry the negative of the spacecraft's NAIF ID.
+                sc_id: -sc_id.saturating_abs(),
                 coefficients,
             });
         }
-- 
2.43.0


From ec1a9cd225d23beb02b6f4163438f615b1aef615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:39 +0000
Subject: [PATCH 84/85] fix: RINEX observation epochs and counts that do not
 parse are refused

---
 src/formats/rinex/obs.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/formats/rinex/obs.rs b/src/formats/rinex/obs.rs
index f434307..eca8654 100644
--- a/src/formats/rinex/obs.rs
+++ b/src/formats/rinex/obs.rs
@@ -119,7 +119,9 @@ pub fn read_rinex_obs<R: Read>(rdr: R) -> Result<RinexObs, FormatError> {
                 let count: usize = body
                     .get(1..6)
                     .and_then(|s| s.trim().parse().ok())
-                    .unwrap_or(0);
+                    .ok_or_else(|| {
+                        FormatError::Format("rinex_obs: unreadable observation type count".into())
+                    })?;
                 let mut types: Vec<String> = body
                     .get(7..)
                     .unwrap_or("")
@@ -157,17 +159,18 @@ pub fn read_rinex_obs<R: Read>(rdr: R) -> Result<RinexObs, FormatError> {
         if parts.len() < 9 {
             continue;
         }
-        let year: i32 = parts[1].parse().unwrap_or(0);
-        let month: u32 = parts[2].parse().unwrap_or(0);
-        let day: u32 = parts[3].parse().unwrap_or(0);
-        let hour: u32 = parts[4].parse().unwrap_or(0);
-        let minute: u32 = parts[5].parse().unwrap_or(0);
-        let second_f: f64 = parts[6].parse().unwrap_or(0.0);
+        let unreadable = || FormatError::Format("rinex_obs: unreadable epoch line".into());
+        let year: i32 = parts[1].parse().map_err(|_| unreadable())?;
+        let month: u32 = parts[2].parse().map_err(|_| unreadable())?;
+        let day: u32 = parts[3].parse().map_err(|_| unreadable())?;
+        let hour: u32 = parts[4].parse().map_err(|_| unreadable())?;
+        let minute: u32 = parts[5].parse().map_err(|_| unreadable())?;
+        let second_f: f64 = parts[6].parse().map_err(|_| unreadable())?;
         let epoch_time =
             crate::formats::civil::utc_from_civil(year, month, day, hour, minute, second_f)
                 .ok_or_else(|| FormatError::Format("rinex_obs: invalid epoch date".into()))?;
 
-        let n_sat: usize = parts[8].parse().unwrap_or(0);
+        let n_sat: usize = parts[8].parse().map_err(|_| unreadable())?;
         if parts[7].parse::<u8>().is_ok_and(|flag| flag > 1) {
             // An event: the announced lines are header or cycle-slip records.
             for _ in 0..n_sat {
-- 
2.43.0


From 44dcc22f66df281675b2b9d9dac92b7bde74fa34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:46 +0000
Subject: [PATCH 85/85] fix: OMM epochs with a nonzero zone offset are refused,
 not read as UTC

---
 src/formats/tle/omm/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/formats/tle/omm/mod.rs b/src/formats/tle/omm/mod.rs
index d0ef167..566ea8a 100644
--- a/src/formats/tle/omm/mod.rs
+++ b/src/formats/tle/omm/mod.rs
@@ -310,7 +310,7 @@ pub(crate) fn format_epoch(t: Time<UTC>) -> Result<String, TleError> {
 pub(crate) fn parse_epoch(raw: &str) -> Result<Time<UTC>, TleError> {
     let s = raw.trim();
     let trimmed = s.trim_end_matches('Z');
-    let trimmed = trimmed.split('+').next().unwrap_or(trimmed);
+    let trimmed = trimmed.strip_suffix("+00:00").unwrap_or(trimmed);
     let dt = chrono::NaiveDateTime::parse_from_str(trimmed, "%Y-%m-%dT%H:%M:%S%.f")
         .or_else(|_| chrono::NaiveDateTime::parse_from_str(trimmed, "%Y-%m-%dT%H:%M:%S"))
         .map_err(|e| TleError::OmmInvalidEpoch {
-- 
2.43.0

