//! C05: lunar phase events, illumination windows, labels and geometry against vector geometry.
use crate::c01::site;
use crate::core::*;
use crate::ev::*;
use siderust::bodies::solar_system::{Moon, Sun};
use siderust::coordinates::cartesian::{Position, Velocity};
use siderust::coordinates::centers::{Barycentric, Geocentric, Heliocentric, Topocentric};
use siderust::coordinates::frames::{EclipticMeanJ2000, EquatorialTrueOfDate};
use siderust::ephemeris::{Ephemeris, Vsop87Ephemeris};
use siderust::event::lunar::phase::*;
use siderust::qtty::unit::{AstronomicalUnit as AU, Day, Kilometer};
use siderust::qtty::{Days, Degrees, IlluminationFractions, Per};
use siderust::time::JulianDate;
use std::f64::consts::{PI, TAU};

const AU_KM: f64 = 149_597_870.7;
fn jd_tt(t: f64) -> JulianDate {
    JulianDate::new(t + 2400000.5)
}
macro_rules! moonsun {
    ($n:ident, $sunrate:expr, $sun0:expr, $moonrate:expr, $moon0:expr, $amp:expr, $inc:expr, $dist:expr) => {
        struct $n;
        impl Ephemeris for $n {
            fn sun_barycentric(_: JulianDate) -> Position<Barycentric, EclipticMeanJ2000, AU> {
                Position::new(0.0, 0.0, 0.0)
            }
            fn earth_barycentric(jd: JulianDate) -> Position<Barycentric, EclipticMeanJ2000, AU> {
                let t = jd.raw().value() - 2460000.5;
                let l = PI + ($sun0 + $sunrate * t) * PI / 180.0;
                Position::new(l.cos(), l.sin(), 0.0)
            }
            fn earth_heliocentric(jd: JulianDate) -> Position<Heliocentric, EclipticMeanJ2000, AU> {
                let e = Self::earth_barycentric(jd);
                Position::new(e.x(), e.y(), e.z())
            }
            fn earth_barycentric_velocity(_: JulianDate) -> Velocity<EclipticMeanJ2000, Per<AU, Day>> {
                Velocity::new(0.0, 0.0, 0.0)
            }
            fn moon_geocentric(jd: JulianDate) -> Position<Geocentric, EclipticMeanJ2000, Kilometer> {
                let t = jd.raw().value() - 2460000.5;
                let m: f64 = ($moon0 + $moonrate * t) * PI / 180.0;
                let l = m + $amp * PI / 180.0 * (1.7 * m).sin();
                let b = ($inc * PI / 180.0) * (1.013 * m + 0.4).sin();
                let r: f64 = $dist;
                Position::new(r * b.cos() * l.cos(), r * b.cos() * l.sin(), r * b.sin())
            }
        }
    };
}
// elongation exactly 11.25 deg/day: principal phases fall on scan nodes
moonsun!(Aligned, 0.0, 0.0, 11.25, 0.0, 0.0, 0.0, 384_400.0);
moonsun!(Real, 0.9856, 33.0, 13.176, 100.0, 6.0, 5.1, 384_400.0);
moonsun!(Swift, 0.3, 250.0, 47.0, 12.0, 18.0, 5.1, 60_000.0);
moonsun!(Slow, 0.9856, 10.0, 4.1, 359.0, 2.0, 9.0, 900_000.0);

/// (elongation in longitude [0, 2pi), phase angle, illuminated fraction) from the vectors.
fn geometry<E: Ephemeris>(t: f64) -> (f64, f64, f64) {
    let jd = jd_tt(t);
    let m = E::moon_geocentric(jd);
    let e = E::earth_heliocentric(jd);
    let m = [m.x().value() / AU_KM, m.y().value() / AU_KM, m.z().value() / AU_KM];
    let s = [-e.x().value(), -e.y().value(), -e.z().value()];
    let el = (m[1].atan2(m[0]) - s[1].atan2(s[0])).rem_euclid(TAU);
    let ms: Vec<f64> = (0..3).map(|i| s[i] - m[i]).collect();
    let dot: f64 = -(0..3).map(|i| ms[i] * m[i]).sum::<f64>();
    let n = |v: &[f64]| v.iter().map(|x| x * x).sum::<f64>().sqrt();
    let c = (dot / n(&ms) / n(&m)).clamp(-1.0, 1.0);
    (el, c.acos(), (1.0 + c) / 2.0)
}
fn wrap(x: f64) -> f64 {
    (x + PI).rem_euclid(TAU) - PI
}
fn explore<E: Ephemeris>(l: &mut Local, name: &str, a: f64, b: f64, step: f64, scan: &[f64]) {
    let s = Sampled::new(a, b, step, |t| geometry::<E>(t).0);
    let il: Vec<f64> = s.t.iter().map(|&t| geometry::<E>(t).2).collect();
    let si = Sampled { a, b, t: s.t.clone(), h: il };
    for &sc in scan {
        let opts = PhaseSearchOpts { scan_step: Days::new(sc), ..Default::default() };
        let key = format!("{name} w={a}+{:.4} scan={sc}", b - a);
        l.case("events", &key, || {
            let ev: Vec<(f64, PhaseKind)> = guard(|| find_phase_events::<E>(win(a, b), opts))?.iter().map(|e| (tv(e.mjd), e.kind)).collect();
            let target = |k: PhaseKind| match k {
                PhaseKind::NewMoon => 0.0,
                PhaseKind::FirstQuarter => PI / 2.0,
                PhaseKind::FullMoon => PI,
                PhaseKind::LastQuarter => 1.5 * PI,
            };
            let mut last = f64::NEG_INFINITY;
            for &(t, k) in &ev {
                ensure!(t >= a - 1e-9 && t <= b + 1e-9, "event {t} outside the window");
                ensure!(t > last, "events not in time order (or repeated) at {t}");
                last = t;
                let d = wrap(geometry::<E>(t).0 - target(k));
                ensure!(d.abs() < 2e-6, "{k} reported at {t:.8} where the elongation differs from it by {d:.3e} rad");
            }
            let mut n = 0;
            for i in 1..s.t.len() {
                for k in PhaseKind::ALL {
                    let (d0, d1) = (wrap(s.h[i - 1] - target(k)), wrap(s.h[i] - target(k)));
                    if d0 < 0.0 && d1 >= 0.0 && d1 - d0 < 2.0 {
                        let f = -d0 / (d1 - d0);
                        let t = s.t[i - 1] + f * (s.t[i] - s.t[i - 1]);
                        n += 1;
                        if t - a < 1e-6 || b - t < 1e-6 {
                            continue;
                        }
                        let hits = ev.iter().filter(|e| (e.0 - t).abs() < 0.02 && e.1 == k).count();
                        ensure!(hits == 1, "{k} at {t:.6} reported {hits} times; got {ev:?}");
                    }
                }
            }
            ensure!(ev.len() <= n + 1, "{} events reported, {n} happen", ev.len());
            Ok(if n == 0 { 1 } else { hf(&ev.iter().map(|e| e.0).collect::<Vec<_>>()) | 2 })
        });
        let tol = Tol { eps: 2e-4, dt: 2e-6, edge: 2e-5 };
        let f = |t: f64| geometry::<E>(t).2;
        for k in [0.05, 0.25, 0.5, 0.75, 0.95] {
            l.case("above", &format!("{key} k={k}"), || {
                let got = ivs(&guard(|| illumination_above::<E>(win(a, b), IlluminationFractions::new(k), opts))?);
                check_intervals(&si, &got, &|h| h - k, &|t| f(t) - k, &tol)
            });
            l.case("below", &format!("{key} k={k}"), || {
                let got = ivs(&guard(|| illumination_below::<E>(win(a, b), IlluminationFractions::new(k), opts))?);
                check_intervals(&si, &got, &|h| k - h, &|t| k - f(t), &tol)
            });
        }
        for (lo, hi) in [(0.05, 0.95), (0.25, 0.5), (0.5, 0.55), (0.0, 0.5), (0.5, 1.0), (0.7, 0.3)] {
            l.case("range", &format!("{key} k={lo}..{hi}"), || {
                let got = ivs(&guard(|| illumination_range::<E>(win(a, b), IlluminationFractions::new(lo), IlluminationFractions::new(hi), opts))?);
                check_intervals(&si, &got, &|h| (h - lo).min(hi - h), &|t| (f(t) - lo).min(hi - f(t)), &tol)
            });
        }
    }
    for (i, &t) in s.t.iter().enumerate().step_by(7) {
        l.case("geometry", &format!("{name} t={t}"), || {
            let g = guard(|| moon_phase_geocentric::<E>(jd_tt(t)))?;
            let (el, ph, k) = geometry::<E>(t);
            ensure!(wrap(g.elongation.value() - el).abs() < 1e-6, "elongation {} instead of {el}", g.elongation.value());
            ensure!((g.phase_angle.value() - ph).abs() < 2e-4, "phase angle {} instead of {ph}", g.phase_angle.value());
            ensure!((g.illuminated_fraction.value() - k).abs() < 1e-4, "illuminated fraction {} instead of {k}", g.illuminated_fraction.value());
            if el.sin().abs() > 1e-6 {
                ensure!(g.waxing == (el < PI), "waxing flag {} at elongation {el}", g.waxing);
            }
            let _ = i;
            Ok(hf(&[el]))
        });
    }
}
pub fn run(tier: Tier) -> Ctx {
    let mut ctx = Ctx::new("C05", "exploration", tier,
        "four synthetic Sun-Moon ephemerides (elongation aligned with the scan nodes, realistic, swift, slow) and VSOP87/ELP x windows (offsets, lengths, windows starting and ending on events) x scan steps x illumination thresholds and ranges; every elongation on a 0.05 degree grid for labels; sites x dates for the topocentric phase. Oracle: the phase triangle computed from the ephemeris vectors. Non-trivial: at least one instant judged.");
    ctx.assumptions = vec!["samples whose illuminated fraction is within 2e-4 of a threshold are not judged; thresholds are at least 0.05 away from 0 and 1".into()];
    let offs: Vec<f64> = ctx.pick(vec![0.0, 0.25, 3.3, 8.0, 11.01], (0..24).map(|i| 0.66 * i as f64).chain([8.0, 8.0 - 1e-5, 8.0 + 1e-5, 16.0, 24.0]).collect());
    let lens = ctx.pick(&[0.3, 8.0, 33.0, 64.0][..], &[0.02, 0.3, 1.0, 8.0, 16.0, 33.0, 64.0, 130.0][..]);
    let mut items = vec![];
    for &o in &offs {
        for &n in lens {
            for e in 0..5 {
                items.push((e, 60000.0 + o, n));
            }
        }
    }
    ctx.par(&items, |l, &(e, a, n)| match e {
        0 => explore::<Aligned>(l, "aligned", a, a + n, 0.02, &[0.5, 1.0, 0.3]),
        1 => explore::<Real>(l, "real", a, a + n, 0.02, &[0.5, 2.0]),
        2 => explore::<Swift>(l, "swift", a, a + n, 0.005, &[0.5, 0.1]),
        3 => explore::<Slow>(l, "slow", a, a + n, 0.05, &[0.5, 3.0]),
        _ => {
            if n < 40.0 || tier == Tier::Thorough {
                explore::<Vsop87Ephemeris>(l, "vsop", a, a + n, 0.05, &[0.5]);
            }
        }
    });
    let mut l = Local::default();
    // almanac instants (UTC): new, first quarter, full, last quarter
    for (k, y) in [(PhaseKind::NewMoon, 51549.7597), (PhaseKind::FullMoon, 51564.1951), (PhaseKind::LastQuarter, 60313.1458), (PhaseKind::FirstQuarter, 60327.1618), (PhaseKind::FullMoon, 60334.7458), (PhaseKind::NewMoon, 60408.7646)] {
        l.case("almanac", &format!("{k} {y}"), || {
            let ev = find_phase_events::<Vsop87Ephemeris>(win(y - 3.0, y + 3.0), PhaseSearchOpts::default());
            ensure!(ev.len() == 1 && ev[0].kind == k, "events {ev:?}");
            let d = (tv(ev[0].mjd) - y) * 1440.0;
            ensure!(d.abs() < 8.0, "{k} off by {d:.2} min");
            Ok(hf(&[y]))
        });
    }
    for hw in [22.5, 5.0, 1.0, 44.9, 45.0] {
        let th = PhaseThresholds { half_width: Degrees::new(hw) };
        for i in -14600..=14600i32 {
            let e = i as f64 * 0.05;
            l.case("label", &format!("hw={hw} e={e}"), || {
                let g = MoonPhaseLabel::from_elongation(Degrees::new(e), &th);
                let c: f64 = Degrees::from(g).value();
                let d = (e - c + 180.0).rem_euclid(360.0) - 180.0;
                let r = c.rem_euclid(90.0);
                // principal phases own +-hw around themselves, the others the rest of their quadrant
                let ok = if r == 0.0 { d.abs() <= hw + 1e-9 } else { d.abs() <= 45.0 - hw + 1e-9 };
                ensure!(ok, "elongation {e} labelled {g}");
                let x = e.rem_euclid(360.0);
                let away = (e / 90.0).rem_euclid(1.0) * 90.0;
                if r != 0.0 && away > 1e-6 && away < 90.0 - 1e-6 {
                    ensure!(g.is_waxing() == (x < 180.0) && g.is_waning() == (x > 180.0), "waxing/waning of {g} at {e}");
                }
                ensure!(!(g.is_waxing() && g.is_waning()), "{g} both waxing and waning");
                if hw == 22.5 && i % 20 == 0 {
                    let geo = MoonPhaseGeometry { phase_angle: siderust::qtty::Radians::new(0.0), illuminated_fraction: IlluminationFractions::new(0.0), elongation: Degrees::new(e).to::<siderust::qtty::unit::Radian>(), waxing: true };
                    let near_edge = ((e - 22.5) / 45.0 - ((e - 22.5) / 45.0).round()).abs() < 1e-9;
                    ensure!(near_edge || geo.label() == g, "geometry label {} differs from {g}", geo.label());
                }
                Ok(hstr(&format!("{g}")))
            });
        }
    }
    // series
    for (a, n, st) in [(60000.0, 10, 0.5), (60003.25, 1, 1.0), (60010.0, 40, 0.25)] {
        l.case("series", &format!("{a} {n} {st}"), || {
            let b = a + st * n as f64 + st / 2.0;
            let v = MoonPhaseSeries::<Real>::sample(mjd(a), mjd(b), Days::new(st));
            ensure!(v.len() == n + 1, "{} samples instead of {}", v.len(), n + 1);
            for (i, (t, g)) in v.iter().enumerate() {
                ensure!((tv(*t) - (a + st * i as f64)).abs() < 1e-8, "sample {i} at {}", tv(*t));
                ensure!(wrap(g.elongation.value() - geometry::<Real>(tv(*t)).0).abs() < 1e-6, "sample {i} geometry");
            }
            Ok(n as u64 + 1)
        });
    }
    ctx.merge(l);
    // topocentric
    let mut ti = vec![];
    for la in [-60.0, 0.0, 35.0, 80.0] {
        for lo in [-120.0, 0.0, 77.0] {
            for k in 0..ctx.pick(12, 60) {
                ti.push((la, lo, 60000.0 + 2.47 * k as f64));
            }
        }
    }
    // through solar and lunar eclipses, where the Moon passes from one side to the other
    let ecl = [57986.768, 58666.808, 59197.676, 59552.315, 60231.75, 60408.7625, 58326.849, 59715.175, 60748.291];
    for t in ecl {
        for k in -30..=30 {
            ti.push(([-25.0, 40.0][(k & 1) as usize], 10.0, t + 0.005 * k as f64));
        }
    }
    ctx.par(&ti, |l, &(la, lo, t)| {
        l.case("topocentric", &format!("lat={la} lon={lo} t={t}"), || {
            let st = site(la, lo);
            let jd = jd_tt(t);
            let g = guard(|| moon_phase_topocentric::<Vsop87Ephemeris>(jd, st))?;
            let m: siderust::coordinates::spherical::Position<Topocentric, EquatorialTrueOfDate, Kilometer> = Moon::get_apparent_topocentric_equ(jd, st);
            let s: siderust::coordinates::spherical::Position<Topocentric, EquatorialTrueOfDate, AU> = Sun::get_apparent_topocentric_equ(jd, st);
            let v = |ra: f64, de: f64, r: f64| [r * de.cos() * ra.cos(), r * de.cos() * ra.sin(), r * de.sin()];
            let m = v(m.ra().value().to_radians(), m.dec().value().to_radians(), m.distance.value() / AU_KM);
            let s = v(s.ra().value().to_radians(), s.dec().value().to_radians(), s.distance.value());
            let n = |v: &[f64; 3]| v.iter().map(|x| x * x).sum::<f64>().sqrt();
            let dot = |a: &[f64; 3], b: &[f64; 3]| (0..3).map(|i| a[i] * b[i]).sum::<f64>();
            let psi = (dot(&m, &s) / n(&m) / n(&s)).clamp(-1.0, 1.0).acos();
            let ms = [s[0] - m[0], s[1] - m[1], s[2] - m[2]];
            let ph = (-dot(&ms, &m) / n(&ms) / n(&m)).clamp(-1.0, 1.0).acos();
            let e = g.elongation.value();
            ensure!((e.min(TAU - e) - psi).abs() < 1e-5, "elongation {e} instead of {psi}");
            ensure!((g.phase_angle.value() - ph).abs() < 3e-4, "phase angle {} instead of {ph}", g.phase_angle.value());
            ensure!((g.illuminated_fraction.value() - (1.0 + ph.cos()) / 2.0).abs() < 2e-4, "illuminated fraction {}", g.illuminated_fraction.value());
            // east of the Sun: waxing
            let east = m[1] * s[0] - m[0] * s[1] > 0.0;
            let clear = (m[1] * s[0] - m[0] * s[1]).abs() > 1e-5 * (m[0].hypot(m[1])) * (s[0].hypot(s[1]));
            ensure!(!clear || g.waxing == east, "waxing {} though the Moon is east of the Sun: {east}", g.waxing);
            ensure!(!clear || (e < PI) == east, "elongation {e} on the wrong side");
            Ok(hf(&[e]))
        });
    });
    ctx.par(&ecl, |l, &t0| {
        for k in -60..=60 {
            let t = t0 + 0.0025 * k as f64;
            l.case("geometry", &format!("eclipse t={t}"), || {
                let g = guard(|| moon_phase_geocentric::<Vsop87Ephemeris>(jd_tt(t)))?;
                let (el, ph, f) = geometry::<Vsop87Ephemeris>(t);
                ensure!(wrap(g.elongation.value() - el).abs() < 1e-6, "elongation {} instead of {el}", g.elongation.value());
                ensure!((g.phase_angle.value() - ph).abs() < 2e-4 && (g.illuminated_fraction.value() - f).abs() < 1e-4, "phase angle {} instead of {ph}", g.phase_angle.value());
                ensure!(el.sin().abs() < 1e-6 || g.waxing == (el < PI), "waxing flag {} at elongation {el}", g.waxing);
                Ok(hf(&[el]))
            });
        }
    });
    ctx
}
