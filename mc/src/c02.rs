//! C02/C03: Sun and Moon altitude events against their own altitude functions.
use crate::c01::{check_target, site, P};
use crate::core::*;
use crate::ev::*;
use siderust::bodies::solar_system::{Moon, Sun};
use siderust::event::altitude::*;
use siderust::event::solar::{twilight, twilight_classification, Twilight, TwilightPhase};
use siderust::qtty::{Days, Degrees};

fn explore<T: AltitudeProvider + Sync + Copy>(ctx: &Ctx, name: &str, body: T, p: &P, dates: &[f64], lats: &[f64], thr: &[f64], ranges: &[(f64, f64)], step: f64, aligned_lens: &[f64], full: bool) {
    let mut items = vec![];
    for &d in dates {
        for &la in lats {
            items.push((d, la));
        }
    }
    ctx.par(&items, |l, &(d, la)| {
        let lon = if la > 0.0 { 15.0 } else { -71.5 };
        let st = site(la, lon);
        let f = |t: f64| body.altitude_at(&st, mjd(t)).value();
        // one long sampled track per item, sub-windows reuse it
        let long = Sampled::new(d - 0.2, d + 4.2, step, f);
        let sub = |a: f64, b: f64| -> Sampled {
            let mut t = vec![a];
            let mut h = vec![f(a)];
            for (x, y) in long.t.iter().zip(&long.h) {
                if *x > a && *x < b {
                    t.push(*x);
                    h.push(*y);
                }
            }
            for k in 1..4 {
                for x in [a + (b - a) * 0.01 / k as f64, b - (b - a) * 0.01 / k as f64] {
                    let i = t.partition_point(|y| *y < x);
                    if (t[i - 1] - x).abs() < 1e-7 || (i < t.len() && (t[i] - x).abs() < 1e-7) {
                        continue;
                    }
                    t.insert(i, x);
                    h.insert(i, f(x));
                }
            }
            t.push(b);
            h.push(f(b));
            Sampled { a, b, t, h }
        };
        let mut wins: Vec<(f64, f64, bool, Option<f64>)> = vec![];
        for (i, off) in [0.0, 0.13, 0.37, 0.6, 0.85].into_iter().enumerate() {
            for (j, len) in [0.02, 0.21, 0.5, 1.0, 3.2].into_iter().enumerate() {
                if full || (i + 2 * j) % 5 < 2 {
                    wins.push((d + off, d + off + len, len > 0.9, None));
                }
            }
        }
        // windows that start or end at, just before and just after a crossing of each threshold
        for &th in thr {
            let r = th.to_radians();
            let mut n = 0;
            for i in 1..long.t.len() {
                if long.t[i] > d && long.t[i] < d + 1.2 && (long.h[i - 1] - r) * (long.h[i] - r) < 0.0 && n < 2 {
                    n += 1;
                    let (mut a, mut b) = (long.t[i - 1], long.t[i]);
                    let sa = f(a) > r;
                    for _ in 0..45 {
                        let m = 0.5 * (a + b);
                        if (f(m) > r) == sa { a = m } else { b = m }
                    }
                    for (i, dl) in [0.0, 1e-6, -1e-6, 2e-3, -2e-3, 0.04].into_iter().enumerate() {
                        for (j, &len) in aligned_lens.iter().enumerate() {
                            if !full && (i + j) % 2 == 1 {
                                continue;
                            }
                            wins.push((a + dl, a + dl + len, false, Some(th)));
                        }
                    }
                    wins.push((a - 0.21, a, false, Some(th)));
                    wins.push((a - 0.21, a + 2e-3, false, Some(th)));
                }
            }
        }
        for (a, b, culm, only) in wins {
            let s = sub(a, b);
            let one = only.map(|t| vec![t]);
            let thr = one.as_deref().unwrap_or(thr);
            let near: Vec<(f64, f64)> = ranges.iter().copied().filter(|r| only.is_none_or(|t| r.0 == t || r.1 == t)).collect();
            let flat = s.h.iter().cloned().fold(f64::MIN, f64::max) - s.h.iter().cloned().fold(f64::MAX, f64::min) < 0.02;
            check_target(l, name, &format!("lat={la} w={a:.7}+{:.7}", b - a), &body, &st, &s, thr, &near, p, culm && !flat && la.abs() < 85.0);
        }
    });
}
const LATS_Q: &[f64] = &[-90.0, -72.0, -34.0, 0.0, 28.7, 51.5, 59.0, 66.2, 69.65, 81.0];
const LATS_T: &[f64] = &[-90.0, -89.9, -77.8, -72.0, -66.9, -65.0, -45.0, -34.0, -10.0, 0.0, 15.0, 28.7, 40.0, 51.5, 55.0, 59.0, 62.0, 64.5, 66.2, 66.9, 68.0, 69.65, 75.0, 81.0, 89.0, 90.0];

pub fn run_sun(tier: Tier) -> Ctx {
    let mut ctx = Ctx::new("C02", "exploration", tier,
        "latitudes (pole to pole, dense around the polar circles) x seasons x window offsets and lengths (minutes to days) x horizon and twilight thresholds and altitude ranges, plus windows starting/ending at, just before and just after every crossing of each threshold; every angle on a 0.01 degree grid for twilight classes. Oracle: the Sun's own altitude sampled every 4 minutes. Non-trivial: at least one sample judged.");
    ctx.assumptions = vec!["excursions beyond a threshold shorter than 10 minutes are not required to be found; samples within 2e-5 rad of the threshold or 3e-6 d of a reported edge are not judged".into()];
    let dates: Vec<f64> = ctx.pick((0..5).map(|i| 60022.0 + 61.0 * i as f64).collect::<Vec<_>>(), (0..18).map(|i| 60022.0 + 20.3 * i as f64).collect());
    let p = P { tol: Tol { eps: 3e-5, dt: 3e-6, edge: 1e-6 }, opt: SearchOpts { time_tolerance: Days::new(1e-9) }, ext_skip: 1e-4, ext_dt: 2e-3, ext_dv: 1e-6 };
    let lats = ctx.pick(LATS_Q, LATS_T);
    explore(&ctx, "sun", Sun, &p, &dates, lats, &[0.0, -0.833, -6.0, -12.0, -18.0, 20.0], &[(-18.0, -12.0), (-6.0, 0.0), (0.0, 90.0), (-18.0, 20.0)], 4.0 / 1440.0, ctx.pick(&[0.06, 1.1][..], &[0.06, 0.3, 1.1][..]), tier == Tier::Thorough);
    // twilight definitions and classes
    let mut l = Local::default();
    for (t, c, want) in [(Twilight::Civil, twilight::CIVIL, -6.0), (Twilight::Nautical, twilight::NAUTICAL, -12.0), (Twilight::Astronomical, twilight::ASTRONOMICAL, -18.0), (Twilight::Horizon, twilight::HORIZON, 0.0), (Twilight::ApparentHorizon, twilight::APPARENT_HORIZON, -0.833)] {
        l.case("twilight", &format!("{t:?}"), || {
            let d: Degrees = t.into();
            ensure!(d.value() == want && c.value() == want, "threshold {} / {} instead of {want}", d.value(), c.value());
            Ok(1)
        });
    }
    for k in -9000..=9000i32 {
        let a = k as f64 / 100.0;
        l.case("class", &format!("{a}"), || {
            let c = twilight_classification(Degrees::new(a));
            let r = twilight_classification(Degrees::new(a).to::<siderust::qtty::unit::Radian>());
            // at an exact boundary either neighbouring class is accepted
            let ok = |c| match c {
                TwilightPhase::Day => a >= 0.0,
                TwilightPhase::Civil => (-6.0..=0.0).contains(&a),
                TwilightPhase::Nautical => (-12.0..=-6.0).contains(&a),
                TwilightPhase::Astronomical => (-18.0..=-12.0).contains(&a),
                TwilightPhase::Dark => a <= -18.0,
            };
            ensure!(ok(c) && ok(r), "class {c:?}/{r:?}");
            Ok(c as u64 + 1)
        });
    }
    ctx.merge(l);
    ctx
}

pub fn run_moon(tier: Tier) -> Ctx {
    let mut ctx = Ctx::new("C03", "exploration", tier,
        "latitudes x epochs (phases of the lunar month, several years) x window offsets and lengths x thresholds and ranges, plus windows starting/ending at, just before and just after every crossing. Oracle: the Moon's own topocentric altitude sampled every 6 minutes. Non-trivial: at least one sample judged.");
    ctx.assumptions = vec!["excursions shorter than 2 h (the documented lunar scan spacing) are not required to be found; samples within 1e-4 rad of the threshold or 1e-5 d of a reported edge are not judged; edges must have |altitude - threshold| < 5e-6 rad (the caches interpolate the ephemeris)".into()];
    let dates: Vec<f64> = ctx.pick((0..4).map(|i| 60022.0 + 6.9 * i as f64).collect::<Vec<_>>(), (0..10).map(|i| 51544.7 + 887.31 * i as f64).collect());
    let p = P { tol: Tol { eps: 1e-4, dt: 1e-5, edge: 5e-6 }, opt: SearchOpts { time_tolerance: Days::new(1e-9) }, ext_skip: 1e-4, ext_dt: 2e-3, ext_dv: 1e-6 };
    let lats = ctx.pick(&LATS_Q[..], &[-90.0, -72.0, -61.0, -34.0, 0.0, 28.7, 51.5, 61.0, 66.2, 81.0, 90.0][..]);
    explore(&ctx, "moon", Moon, &p, &dates, lats, &[0.0, -0.5, 20.0, -18.0], &[(0.0, 20.0), (-18.0, 40.0)], 6.0 / 1440.0, &[0.06, 1.1], tier == Tier::Thorough);
    ctx
}
