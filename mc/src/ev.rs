//! Shared oracle for event searches: interval lists, crossings and extrema are compared with the
//! sampled signal itself (never with another search).
use crate::core::Outcome;
use siderust::time::{Interval, ModifiedJulianDate};

pub type Mjd = ModifiedJulianDate;
pub fn mjd(x: f64) -> Mjd {
    ModifiedJulianDate::new(x)
}
pub fn win(a: f64, b: f64) -> Interval<Mjd> {
    Interval::new(mjd(a), mjd(b))
}
pub fn tv(m: Mjd) -> f64 {
    m.raw().value()
}
pub fn ivs(v: &[Interval<Mjd>]) -> Vec<(f64, f64)> {
    v.iter().map(|i| (tv(i.start), tv(i.end))).collect()
}

/// A signal sampled over a window (both ends included).
pub struct Sampled {
    pub a: f64,
    pub b: f64,
    pub t: Vec<f64>,
    pub h: Vec<f64>,
}
impl Sampled {
    pub fn new(a: f64, b: f64, step: f64, f: impl Fn(f64) -> f64) -> Self {
        let n = (((b - a) / step).ceil() as usize).max(8);
        let d = (b - a) / n as f64;
        let mut t: Vec<f64> = (0..=n).map(|i| if i == n { b } else { a + d * i as f64 }).collect();
        // finer samples towards both ends
        for k in 1..10 {
            t.push(a + d / (1 << k) as f64);
            t.push(b - d / (1 << k) as f64);
        }
        t.sort_by(f64::total_cmp);
        t.dedup();
        let h = t.iter().map(|&x| f(x)).collect();
        Sampled { a, b, t, h }
    }
}
pub struct Tol {
    /// Samples with |g| below this are not judged.
    pub eps: f64,
    /// Samples closer than this (days) to a reported edge are not judged.
    pub dt: f64,
    /// Required |g| at a reported edge.
    pub edge: f64,
}

/// Interval list `iv` must be exactly where `g > 0` (g evaluated on the samples' values and, at edges, afresh).
pub fn check_intervals(s: &Sampled, iv: &[(f64, f64)], gh: &dyn Fn(f64) -> f64, g_at: &dyn Fn(f64) -> f64, tol: &Tol) -> Outcome {
    let mut last = f64::NEG_INFINITY;
    for &(x, y) in iv {
        ensure!(x.is_finite() && y.is_finite(), "non-finite interval");
        ensure!(x < y, "empty or reversed interval [{x:.9}, {y:.9}]");
        ensure!(x >= s.a - 1e-9 && y <= s.b + 1e-9, "interval [{x:.9}, {y:.9}] leaves the window [{}, {}]", s.a, s.b);
        ensure!(x >= last, "intervals overlap or are unsorted at {x:.9}");
        last = y;
    }
    let mut k = 0;
    let mut judged = 0u64;
    for (i, &t) in s.t.iter().enumerate() {
        while k < iv.len() && iv[k].1 < t {
            k += 1;
        }
        let inside = k < iv.len() && iv[k].0 <= t && t <= iv[k].1;
        let near = |e: f64| (t - e).abs() <= tol.dt;
        if (k < iv.len() && (near(iv[k].0) || near(iv[k].1))) || (k > 0 && near(iv[k - 1].1)) {
            continue;
        }
        let g = gh(s.h[i]);
        if g.abs() <= tol.eps {
            continue;
        }
        judged += 1;
        ensure!(inside == (g > 0.0), "at t={t:.9} condition value {g:.3e} but membership {inside}; window [{}, {}], intervals {iv:?}", s.a, s.b);
    }
    for &(x, y) in iv {
        for (e, other, interior) in [(x, y, x > s.a + 1e-7), (y, x, y < s.b - 1e-7)] {
            if interior && (x - y).abs() > 1e-6 {
                let g = g_at(e);
                ensure!(g.abs() <= tol.edge, "interval edge {e:.9} (of [{x:.9},{y:.9}]) has condition value {g:.3e}");
            }
            let _ = other;
        }
    }
    Ok(if judged == 0 { 0 } else { crate::core::hf(&iv.iter().flat_map(|p| [p.0, p.1]).collect::<Vec<_>>()) })
}

/// Crossing list: alternating labels, roots of g, and the sign between consecutive events is the
/// label's; equivalent to exactness of the interval list they induce.
pub fn check_crossings(s: &Sampled, ev: &[(f64, bool)], gh: &dyn Fn(f64) -> f64, g_at: &dyn Fn(f64) -> f64, tol: &Tol) -> Outcome {
    let mut last = f64::NEG_INFINITY;
    for (i, &(t, up)) in ev.iter().enumerate() {
        ensure!(t >= s.a - 1e-9 && t <= s.b + 1e-9, "event {t:.9} outside the window");
        ensure!(t > last, "events not strictly increasing at {t:.9}");
        if i > 0 {
            ensure!(ev[i - 1].1 != up, "two consecutive events with the same label at {last:.9} and {t:.9}");
        }
        last = t;
        let g = g_at(t);
        ensure!(g.abs() <= tol.edge, "event at {t:.9} has condition value {g:.3e}");
    }
    let mut k = 0;
    let mut judged = 0;
    for (i, &t) in s.t.iter().enumerate() {
        while k < ev.len() && ev[k].0 <= t {
            k += 1;
        }
        if (k < ev.len() && (ev[k].0 - t).abs() <= tol.dt) || (k > 0 && (ev[k - 1].0 - t).abs() <= tol.dt) {
            continue;
        }
        let g = gh(s.h[i]);
        if g.abs() <= tol.eps {
            continue;
        }
        judged += 1;
        let want = if k > 0 { ev[k - 1].1 } else if !ev.is_empty() { !ev[0].1 } else { gh(s.h[s.h.len() / 2]) > 0.0 };
        if ev.is_empty() && gh(s.h[s.h.len() / 2]).abs() <= tol.eps {
            continue;
        }
        ensure!(want == (g > 0.0), "at t={t:.9} condition value {g:.3e} contradicts the events {ev:?} (window [{}, {}])", s.a, s.b);
    }
    Ok(if judged == 0 { 0 } else { crate::core::hf(&ev.iter().map(|p| p.0).collect::<Vec<_>>()) | 1 })
}

/// Local extrema of a smooth function found by dense sampling and local refinement.
/// Returns (time, value, is_max); only extrema whose prominence to the neighbouring samples is resolved.
pub fn sampled_extrema(s: &Sampled, f: &dyn Fn(f64) -> f64) -> Vec<(f64, f64, bool)> {
    let mut out = vec![];
    for i in 1..s.t.len() - 1 {
        let (l, c, r) = (s.h[i - 1], s.h[i], s.h[i + 1]);
        let max = c > l && c >= r;
        let min = c < l && c <= r;
        if !max && !min {
            continue;
        }
        let (mut a, mut b) = (s.t[i - 1], s.t[i + 1]);
        for _ in 0..60 {
            let (m1, m2) = (a + (b - a) * 0.382, a + (b - a) * 0.618);
            let (f1, f2) = (f(m1), f(m2));
            if (f1 > f2) == max {
                b = m2;
            } else {
                a = m1;
            }
        }
        let t = 0.5 * (a + b);
        out.push((t, f(t), max));
    }
    out
}
/// Every expected extremum is reported once with the right kind and value; nothing else is.
/// Extrema within `skip` days of the window ends may be present or absent.
pub fn check_extrema(want: &[(f64, f64, bool)], got: &[(f64, f64, bool)], a: f64, b: f64, dt: f64, dv: f64, skip: f64) -> Outcome {
    let mut last = f64::NEG_INFINITY;
    let mut used = vec![false; got.len()];
    for &(t, ..) in got {
        ensure!(t >= a - 1e-9 && t <= b + 1e-9, "extremum {t} outside the window [{a}, {b}]");
        ensure!(t >= last, "extrema not in time order at {t}");
        last = t;
    }
    for &(t, v, m) in want {
        let hit: Vec<usize> = (0..got.len()).filter(|&i| (got[i].0 - t).abs() <= dt).collect();
        let edge = t - a < skip || b - t < skip;
        if hit.is_empty() && edge {
            continue;
        }
        ensure!(hit.len() == 1, "extremum (max={m}) at {t:.6} value {v:.6} reported {} times; window [{a}, {b}]; got {got:?}", hit.len());
        let g = got[hit[0]];
        ensure!(g.2 == m, "extremum at {t:.6} reported with the wrong kind");
        ensure!((g.1 - v).abs() <= dv, "extremum at {t:.6} value {} instead of {v}", g.1);
        used[hit[0]] = true;
    }
    for (i, u) in used.iter().enumerate() {
        ensure!(*u || got[i].0 - a < skip.max(5e-3) || b - got[i].0 < skip.max(5e-3), "spurious extremum {:?}; expected {want:?}", got[i]);
    }
    Ok(if want.is_empty() { 0 } else { crate::core::hf(&want.iter().map(|x| x.0).collect::<Vec<_>>()) | 1 })
}
