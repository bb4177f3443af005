//! C18: Keplerian and conic positions against an independent solution of the two-body problem.
use crate::core::*;
use siderust::astro::conic::{ConicKind, ConicOrbit, MeanMotionOrbit};
use siderust::astro::conic_equations::{calculate_orbit_position, calculate_orbit_position_with_mu, calculate_prepared_position};
use siderust::astro::orbit::{KeplerianOrbit, PreparedOrbit};
use siderust::coordinates::cartesian::position::EclipticMeanJ2000;
use siderust::qtty::unit::AstronomicalUnit as AU;
use siderust::qtty::{AstronomicalUnits, Degrees, GravitationalParameter};
use siderust::time::JulianDate;
use std::f64::consts::{PI, TAU};

const GAUSS_YEAR: f64 = 365.256_898_326;
type V = [f64; 3];
fn v(p: EclipticMeanJ2000<AU>) -> V {
    [p.x().value(), p.y().value(), p.z().value()]
}
fn dist(a: V, b: V) -> f64 {
    (0..3).map(|i| (a[i] - b[i]).powi(2)).sum::<f64>().sqrt()
}
/// Eccentric anomaly in (-pi, pi] by bisection (monotone function).
fn ecc_anom(m: f64, e: f64) -> f64 {
    let m = (m + PI).rem_euclid(TAU) - PI;
    let (mut a, mut b) = (-PI, PI);
    for _ in 0..200 {
        let c = 0.5 * (a + b);
        if c - e * c.sin() < m { a = c } else { b = c }
    }
    0.5 * (a + b)
}
fn hyp_anom(m: f64, e: f64) -> f64 {
    let (mut a, mut b) = (-60.0f64, 60.0f64);
    for _ in 0..300 {
        let c = 0.5 * (a + b);
        if e * c.sinh() - c < m { a = c } else { b = c }
    }
    0.5 * (a + b)
}
/// Rotation R3(-node) R1(-i) R3(-argp) applied to perifocal coordinates.
fn rot(x: f64, y: f64, i: f64, node: f64, argp: f64) -> V {
    let r = PI / 180.0;
    let r3 = |p: V, a: f64| [p[0] * a.cos() - p[1] * a.sin(), p[0] * a.sin() + p[1] * a.cos(), p[2]];
    let r1 = |p: V, a: f64| [p[0], p[1] * a.cos() - p[2] * a.sin(), p[1] * a.sin() + p[2] * a.cos()];
    r3(r1(r3([x, y, 0.0], argp * r), i * r), node * r)
}
fn elliptic(a: f64, e: f64, m: f64) -> (f64, f64) {
    let ea = ecc_anom(m, e);
    (a * (ea.cos() - e), a * (1.0 - e * e).sqrt() * ea.sin())
}
fn hyperbolic(q: f64, e: f64, m: f64) -> (f64, f64) {
    let f = hyp_anom(m, e);
    let a = q / (e - 1.0);
    (a * (e - f.cosh()), a * (e * e - 1.0).sqrt() * f.sinh())
}
struct El {
    e: f64,
    i: f64,
    node: f64,
    argp: f64,
    m0: f64,
    a: f64,
}
pub fn run(tier: Tier) -> Ctx {
    let mut ctx = Ctx::new("C18", "exploration", tier,
        "eccentricities (0 to 1-1e-8 and 1+1e-6 to 50) x orientation angles (including 0, 90, 180, 360, negative) x mean anomalies x size x fractions and multiples of the period in both directions, for every orbit type and entry point; every invalid value of every element. Oracle: anomaly by bisection and explicit rotation matrices. Non-trivial: a position was computed and compared.");
    ctx.assumptions = vec!["agreement within 1e-10 of the size plus the rounding of the mean anomaly amplified by 1/(1-e); hyperbolic anomalies beyond 60 are outside the bound".into()];
    let es = ctx.pick(&[0.0, 1e-9, 0.0167, 0.3, 0.75, 0.97, 0.9999, 1.0 - 1e-6, 1.0 - 1e-8][..], &[0.0, 1e-14, 1e-9, 0.001, 0.0167, 0.1, 0.2056, 0.3, 0.5, 0.75, 0.9, 0.967, 0.97, 0.99, 0.999, 0.9999, 1.0 - 1e-5, 1.0 - 1e-6, 1.0 - 1e-7, 1.0 - 1e-8][..]);
    let incs = ctx.pick(&[0.0, 23.4, 90.0, 151.0, 180.0][..], &[0.0, 1e-7, 5.0, 23.4, 63.4, 90.0, 98.0, 151.0, 180.0][..]);
    let angs = ctx.pick(&[(0.0, 0.0), (49.6, 286.5), (-100.0, 180.0), (359.999, 725.0)][..], &[(0.0, 0.0), (49.6, 286.5), (-100.0, 180.0), (359.999, 725.0), (90.0, 0.0), (0.0, 90.0), (180.0, 270.0), (222.0, 13.0)][..]);
    let ms = ctx.pick(&[0.0, 1e-7, 19.4, 179.999_999, 180.0, 271.0, 359.9, -40.0, 400.0][..], &[0.0, 1e-9, 1e-7, 0.01, 3.0, 19.4, 90.0, 120.0, 179.999_999, 180.0, 180.001, 271.0, 300.0, 359.9, 360.0, -1e-6, -40.0, 400.0, 7200.5][..]);
    let sizes = [1.0, 0.05, 39.5, 900.0];
    let mut els = vec![];
    for &e in es {
        for &i in incs {
            for &(node, argp) in angs {
                for (k, &m0) in ms.iter().enumerate() {
                    els.push(El { e, i, node, argp, m0, a: sizes[(k + els.len()) % 4] });
                }
            }
        }
    }
    let fr: &[f64] = ctx.pick(&[0.0, 1e-6, 0.13, 0.5, 0.77, 1.0, -0.31, 12.25, -250.6][..], &[0.0, 1e-9, 1e-6, 0.01, 0.13, 0.25, 0.4999, 0.5, 0.77, 0.999, 1.0, 2.0, -0.0001, -0.31, -1.0, 12.25, 100.0, -250.6][..]);
    let ep0 = 2451545.0;
    ctx.par(&els, |l, el| {
        let (e, a) = (el.e, el.a);
        let per = GAUSS_YEAR * a.powf(1.5);
        let d = Degrees::new;
        let k = KeplerianOrbit::try_new(AstronomicalUnits::new(a), e, d(el.i), d(el.node), d(el.argp), d(el.m0), JulianDate::new(ep0));
        let key0 = format!("e={e} a={a} i={} node={} argp={} M={}", el.i, el.node, el.argp, el.m0);
        let k = match k {
            Ok(k) => k,
            Err(x) => {
                l.case("accept", &key0, || Err(format!("valid elements refused: {x}")));
                return;
            }
        };
        for &f in fr {
            l.case("elliptic", &format!("{key0} P*{f}"), || {
                let jd = JulianDate::new(ep0 + f * per);
                let dt = (ep0 + f * per) - ep0;
                let mm = |n: f64| el.m0.to_radians() + n * dt;
                let n = TAU / per;
                let want = |m: f64| {
                    let (x, y) = elliptic(a, e, m);
                    rot(x, y, el.i, el.node, el.argp)
                };
                let m = mm(n);
                let dm = 1e-15 * (m.abs() + 20.0) * 4.0;
                // |dr| <= a dE; dE <= dM/(1-e), and dE <= (6 dM)^(1/3)-like bound close to periapsis
                let tol = |dm: f64| a * (1e-10 + (dm / (1.0 - e)).min(4.0 * dm.cbrt()) * 3.0);
                let w = want(m);
                let near = |name: &str, p: V, w: V, dm: f64| -> Result<(), String> {
                    let x = dist(p, w);
                    ensure!(x <= tol(dm), "{name} is {x:.3e} AU off: {p:?} instead of {w:?} (M={m})");
                    Ok(())
                };
                let p = v(guard(|| k.kepler_position(jd))?);
                near("kepler_position", p, w, dm)?;
                near("calculate_orbit_position", v(guard(|| calculate_orbit_position(&k, jd))?), w, dm)?;
                let pr = PreparedOrbit::try_from(k).map_err(|x| format!("prepared: {x}"))?;
                near("PreparedOrbit", v(guard(|| pr.position_at(jd))?), w, dm)?;
                near("calculate_prepared_position", v(guard(|| calculate_prepared_position(&pr, jd))?), w, dm)?;
                let pr2 = PreparedOrbit::try_from_elements(AstronomicalUnits::new(a), e, d(el.i), d(el.node), d(el.argp), d(el.m0), JulianDate::new(ep0)).map_err(|x| format!("prepared: {x}"))?;
                near("PreparedOrbit::try_from_elements", v(guard(|| pr2.position_at(jd))?), w, dm)?;
                // other central body
                for mu in [398600.4418, 1.32712440018e11] {
                    let au = 149_597_870.7f64;
                    let nm = (mu * 86400.0 * 86400.0 / (a * au).powi(3)).sqrt();
                    let m = mm(nm);
                    let dm = 1e-15 * (m.abs() + 20.0) * 8.0;
                    let w = want(m);
                    near("position_with_mu", v(guard(|| k.position_with_mu(jd, GravitationalParameter::new(mu)))?), w, dm)?;
                    near("calculate_orbit_position_with_mu", v(guard(|| calculate_orbit_position_with_mu(&k, jd, GravitationalParameter::new(mu)))?), w, dm)?;
                }
                // the same orbit as a conic given by its periapsis distance
                let q = a * (1.0 - e);
                let c = ConicOrbit::try_new(AstronomicalUnits::new(q), e, d(el.i), d(el.node), d(el.argp), d(el.m0), JulianDate::new(ep0)).map_err(|x| format!("conic: {x}"))?;
                ensure!(c.kind() == ConicKind::Elliptic, "kind {:?}", c.kind());
                let ac = q / (1.0 - e);
                let mc = mm(0.01720209895 / ac.powf(1.5));
                let (x, y) = elliptic(ac, e, mc);
                let wc = rot(x, y, el.i, el.node, el.argp);
                near("ConicOrbit", v(guard(|| c.position_at(jd))?.map_err(|x| format!("conic: {x}"))?), wc, dm * 2.0)?;
                // and as a mean-motion orbit (anomaly zero at the epoch)
                let nd = 360.0 / per;
                let o = MeanMotionOrbit::try_new(AstronomicalUnits::new(a), e, d(el.i), d(el.node), d(el.argp), siderust::qtty::Quantity::new(nd), JulianDate::new(ep0)).map_err(|x| format!("mean motion: {x}"))?;
                near("MeanMotionOrbit", v(guard(|| o.position_at(jd))?.map_err(|x| format!("mean motion: {x}"))?), want(nd.to_radians() * dt), dm)?;
                Ok(hf(&p))
            });
        }
    });
    // hyperbolic
    let mut hy = vec![];
    for &e in ctx.pick(&[1.0 + 1e-6, 1.001, 1.2, 3.36, 20.0][..], &[1.0 + 1e-6, 1.0 + 1e-4, 1.001, 1.05, 1.2, 2.0, 3.36, 6.1, 20.0, 50.0][..]) {
        for &q in &[0.1, 0.25, 1.0, 5.2, 30.0] {
            for &(node, argp) in angs {
                for &i in incs {
                    hy.push((e, q, node, argp, i));
                }
            }
        }
    }
    ctx.par(&hy, |l, &(e, q, node, argp, i)| {
        let a: f64 = q / (e - 1.0);
        let n = 0.01720209895 / a.powf(1.5);
        for m0 in [0.0, 20.0, -300.0] {
            for dt in [0.0, 0.3, -5.0, 97.0, -1000.0, 10_000.0, 40_000.0, -100_000.0] {
                l.case("hyperbolic", &format!("e={e} q={q} i={i} node={node} argp={argp} M0={m0} dt={dt}"), || {
                    let d = Degrees::new;
                    let c = ConicOrbit::try_new(AstronomicalUnits::new(q), e, d(i), d(node), d(argp), d(m0), JulianDate::new(ep0)).map_err(|x| format!("refused: {x}"))?;
                    ensure!(c.kind() == ConicKind::Hyperbolic, "kind {:?}", c.kind());
                    let m = (m0 as f64).to_radians() + n * dt;
                    let (x, y) = hyperbolic(q, e, m);
                    let w = rot(x, y, i, node, argp);
                    let r = (x * x + y * y).sqrt();
                    let p = v(guard(|| c.position_at(JulianDate::new(ep0 + dt)))?.map_err(|x| format!("no position: {x} (M={m})"))?);
                    let err = dist(p, w);
                    let tol = 1e-9 * r + a * 4e-14 * (1.0 + m.abs()) / (e - 1.0);
                    ensure!(err <= tol, "{err:.3e} AU off: {p:?} instead of {w:?} (M={m})");
                    Ok(hf(&p))
                });
            }
        }
    });
    // refusals
    let mut l = Local::default();
    let bad = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY];
    let ok = [1.0, 0.2, 10.0, 20.0, 30.0, 40.0, 2451545.0];
    let mut sets: Vec<([f64; 7], bool, bool, &str)> = vec![];
    for j in 0..7 {
        for b in bad {
            let mut s = ok;
            s[j] = b;
            sets.push((s, true, true, "non-finite"));
        }
    }
    for (j, x, hyper_ok) in [(0, 0.0, false), (0, -1.0, false), (1, -0.1, false), (1, 1.0, false), (1, 1.5, true), (1, -1e-300, false)] {
        let mut s = ok;
        s[j] = x;
        sets.push((s, true, !hyper_ok, "out of range"));
    }
    sets.push((ok, false, false, "fine"));
    for (s, bad_ell, bad_conic, why) in sets {
        l.case("refuse", &format!("{why} {s:?}"), || {
            let d = Degrees::new;
            let (a, e, ep) = (AstronomicalUnits::new(s[0]), s[1], s[6]);
            // a JulianDate cannot hold a NaN through the checked route; skip if construction refuses
            let Ok(jd) = guard(|| JulianDate::new(ep)) else { return Ok(2) };
            let r1 = guard(|| KeplerianOrbit::try_new(a, e, d(s[2]), d(s[3]), d(s[4]), d(s[5]), jd))?;
            ensure!(r1.is_err() == bad_ell, "KeplerianOrbit::try_new accepted: {}", r1.is_ok());
            let r2 = guard(|| PreparedOrbit::try_from_elements(a, e, d(s[2]), d(s[3]), d(s[4]), d(s[5]), jd))?;
            ensure!(r2.is_err() == bad_ell, "PreparedOrbit::try_from_elements accepted: {}", r2.is_ok());
            let r4 = guard(|| ConicOrbit::try_new(a, e, d(s[2]), d(s[3]), d(s[4]), d(s[5]), jd))?;
            ensure!(r4.is_err() == bad_conic, "ConicOrbit::try_new accepted: {}", r4.is_ok());
            let nomean = s[5].is_nan() || s[5].is_infinite();
            let r5 = guard(|| MeanMotionOrbit::try_new(a, e, d(s[2]), d(s[3]), d(s[4]), siderust::qtty::Quantity::new(if nomean { s[5] } else { 0.9 }), jd))?;
            ensure!(r5.is_err() == bad_ell, "MeanMotionOrbit::try_new accepted: {}", r5.is_ok());
            Ok(3)
        });
    }
    for n in [0.0, -1.0, -0.0] {
        l.case("refuse", &format!("mean motion {n}"), || {
            let d = Degrees::new;
            let r = MeanMotionOrbit::try_new(AstronomicalUnits::new(1.0), 0.1, d(0.0), d(0.0), d(0.0), siderust::qtty::Quantity::new(n), JulianDate::new(ep0));
            ensure!(r.is_err(), "accepted");
            Ok(4)
        });
    }
    // stored orbits: a faithful round trip, and invalid stored elements are refused
    let good = KeplerianOrbit::try_new(AstronomicalUnits::new(1.5), 0.25, Degrees::new(10.0), Degrees::new(20.0), Degrees::new(30.0), Degrees::new(40.0), JulianDate::new(ep0)).unwrap();
    let text = serde_json::to_string(&good).unwrap();
    l.case("stored", "round trip", || {
        let k: KeplerianOrbit = serde_json::from_str(&text).map_err(|e| e.to_string())?;
        let p: PreparedOrbit = serde_json::from_str(&text).map_err(|e| e.to_string())?;
        let t2 = serde_json::to_string(&p).unwrap();
        ensure!(k == good && t2 == text && *p.elements() == good, "{t2} instead of {text}");
        Ok(5)
    });
    for (from, to) in [("1.5", "-1.5"), ("1.5", "0.0"), ("0.25", "1.5"), ("0.25", "-0.5"), ("0.25", "1.0")] {
        l.case("stored", &format!("{from} -> {to}"), || {
            let t = text.replacen(from, to, 1);
            ensure!(t != text, "{text} does not contain {from}");
            let k: Result<KeplerianOrbit, _> = serde_json::from_str(&t);
            let p: Result<PreparedOrbit, _> = serde_json::from_str(&t);
            ensure!(k.is_err() && p.is_err(), "invalid stored orbit accepted: {t}");
            Ok(6)
        });
    }
    ctx.merge(l);
    ctx
}
