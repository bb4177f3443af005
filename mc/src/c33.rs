//! C33: star space motion, gravitational light deflection, correction policies and tracked objects.
use crate::core::*;
use siderust::astro::apparent::{AppliedCorrections, CorrectionPolicy, CORRECTION_ORDER};
use siderust::astro::light_deflection as ld;
use siderust::astro::proper_motion::{propagate_space_motion, propagate_space_motion_since_j2000, set_proper_motion_since_j2000, ProperMotion, ProperMotionError, RaProperMotionConvention, StarSpaceMotion};
use siderust::coordinates::cartesian::{Direction, Displacement};
use siderust::coordinates::frames::{EquatorialMeanJ2000, GCRS};
use siderust::coordinates::spherical::position;
use siderust::event::horizontal::{star_horizontal, star_horizontal_with_policy};
use siderust::{AltitudeProvider, AzimuthProvider};
use siderust::qtty::*;
use siderust::targets::{CoordinateWithPM, Trackable};
use siderust::time::JulianDate;

type Au = siderust::qtty::unit::AstronomicalUnit;
type Degpy = Per<siderust::qtty::unit::Degree, siderust::qtty::unit::Year>;
type Maspy = Per<siderust::qtty::unit::MilliArcsecond, siderust::qtty::unit::Year>;
type V = [f64; 3];
const J2000: f64 = 2451545.0;
const DEG: f64 = std::f64::consts::PI / 180.0;
const MAS: f64 = DEG / 3.6e6;
fn dot(a: V, b: V) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
fn cross(a: V, b: V) -> V {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn norm(a: V) -> f64 {
    dot(a, a).sqrt()
}
fn unit(a: V) -> V {
    let n = norm(a);
    [a[0] / n, a[1] / n, a[2] / n]
}
fn angle(a: V, b: V) -> f64 {
    norm(cross(a, b)).atan2(dot(a, b))
}
fn sph(ra: f64, dec: f64) -> V {
    let ((sa, ca), (sd, cd)) = ((ra * DEG).sin_cos(), (dec * DEG).sin_cos());
    [cd * ca, cd * sa, sd]
}
fn at(p: &position::EquatorialMeanJ2000<Au>) -> (V, f64) {
    (sph(p.azimuth.value(), p.polar.value()), p.distance.value())
}

/// position and velocity (AU, AU per Julian year) from the catalogue quantities
fn pv(ra: f64, dec: f64, m: [f64; 4]) -> (V, V) {
    let e = sph(ra, dec);
    let ((sa, ca), (sd, cd)) = ((ra * DEG).sin_cos(), (dec * DEG).sin_cos());
    let (west, north) = ([-sa, ca, 0.0], [-sd * ca, -sd * sa, cd]);
    let r = 1.0 / (m[2] * MAS);
    let vr = m[3] * 86400.0 * 365.25 / 149_597_870.7;
    let (mut p, mut v) = ([0.0; 3], [0.0; 3]);
    for i in 0..3 {
        p[i] = r * e[i];
        v[i] = r * MAS * (m[0] * west[i] + m[1] * north[i]) + vr * e[i];
    }
    (p, v)
}
/// the catalogue quantities of a position and velocity
fn catalogue(p: V, v: V) -> (f64, f64, [f64; 4]) {
    let r = norm(p);
    let e = unit(p);
    let (ra, dec) = (e[1].atan2(e[0]).rem_euclid(std::f64::consts::TAU), e[2].atan2(e[0].hypot(e[1])));
    let ((sa, ca), (sd, cd)) = (ra.sin_cos(), dec.sin_cos());
    let (west, north) = ([-sa, ca, 0.0], [-sd * ca, -sd * sa, cd]);
    (ra / DEG, dec / DEG, [dot(v, west) / r / MAS, dot(v, north) / r / MAS, 1.0 / r / MAS, dot(v, e) * 149_597_870.7 / (86400.0 * 365.25)])
}
fn motion(m: [f64; 4]) -> StarSpaceMotion {
    StarSpaceMotion {
        pm_ra_cos_dec: Quantity::<Maspy>::new(m[0]),
        pm_dec: Quantity::<Maspy>::new(m[1]),
        parallax: MilliArcseconds::new(m[2]),
        radial_velocity: Quantity::<Per<siderust::qtty::unit::Kilometer, siderust::qtty::unit::Second>>::new(m[3]),
    }
}
fn mean(ra: f64, dec: f64, d: f64) -> position::EquatorialMeanJ2000<Au> {
    position::EquatorialMeanJ2000::<Au>::new(Degrees::new(ra), Degrees::new(dec), AstronomicalUnits::new(d))
}
fn jd(v: f64) -> JulianDate {
    JulianDate::new(v)
}

fn space(ctx: &Ctx) {
    let ras = [0.0, 37.5, 90.0, 179.9999, 180.0, 269.25, 359.9999];
    let decs = [-89.999, -61.0, -16.7, 0.0, 5.0, 45.0, 88.0, 89.999];
    let ms: Vec<[f64; 4]> = product(&[5, 5, 3, 4])
        .into_iter()
        .map(|i| [[0.0, -798.6, 10358.0, 3.5, -0.01][i[0]], [0.0, 10328.1, -4800.0, -20.0, 0.5][i[1]], [548.3, 12.0, 0.4][i[2]], [0.0, -110.6, 245.0, 22.4][i[3]]])
        .collect();
    let years = if ctx.tier == Tier::Thorough { vec![-5000.0, -1000.0, -100.0, -16.0, -1.0, 0.0, 0.5, 1.0, 16.0, 24.5, 100.0, 1000.0, 9000.0] } else { vec![-1000.0, -16.0, 0.0, 1.0, 24.5, 1000.0] };
    let items: Vec<(f64, f64)> = ras.iter().flat_map(|&a| decs.iter().map(move |&d| (a, d))).collect();
    ctx.par(&items, |l, &(ra, dec)| {
        for (mi, &m) in ms.iter().enumerate() {
            let (p, v) = pv(ra, dec, m);
            let sec = if m[0] == 0.0 && m[1] == 0.0 { "radial motion" } else { "space motion" };
            for &e0 in &[J2000, J2000 + 16.0 * 365.25] {
                for &y in &years {
                    let t = e0 + y * 365.25;
                    l.case(sec, &format!("{ra},{dec} motion {mi} from {e0} over {y} yr"), || {
                        let q = [p[0] + y * v[0], p[1] + y * v[1], p[2] + y * v[2]];
                        let r = propagate_space_motion(mean(ra, dec, 1.0), motion(m), jd(t), jd(e0)).map_err(|e| e.to_string())?;
                        let (e, d) = at(&r);
                        let tol = 3e-14 / dec.to_radians().cos().max(1e-6) + 1e-13;
                        ensure!(angle(e, unit(q)) < tol, "{:e} rad from the straight line", angle(e, unit(q)));
                        ensure!((d / norm(q) - 1.0).abs() < 1e-11, "distance {d}, on the straight line {}", norm(q));
                        ensure!((0.0..=360.0).contains(&r.azimuth.value()) && r.polar.value().abs() <= 90.0, "right ascension {} declination {}", r.azimuth.value(), r.polar.value());
                        // the input distance does not matter
                        let r2 = propagate_space_motion(mean(ra, dec, 777.0), motion(m), jd(t), jd(e0)).map_err(|e| e.to_string())?;
                        ensure!(at(&r2) == (e, d), "the distance of the input changes the answer");
                        if e0 == J2000 {
                            let r3 = propagate_space_motion_since_j2000(mean(ra, dec, 1.0), motion(m), jd(t)).map_err(|e| e.to_string())?;
                            ensure!(at(&r3) == (e, d), "the two entry points differ");
                        }
                        // stopping half way and going on from there gives the same place
                        let h = [p[0] + 0.5 * y * v[0], p[1] + 0.5 * y * v[1], p[2] + 0.5 * y * v[2]];
                        let (ha, hd, hm) = catalogue(h, v);
                        let r4 = propagate_space_motion(mean(ha, hd, 1.0), motion(hm), jd(t), jd(e0 + 0.5 * y * 365.25)).map_err(|e| e.to_string())?;
                        let (e4, d4) = at(&r4);
                        ensure!(angle(e4, e) < 1e-9 * (1.0 + y.abs() / 1000.0) * if dec.abs() > 89.0 { 30.0 } else { 1.0 } && (d4 / d - 1.0).abs() < 1e-9, "two steps differ from one by {:e} rad", angle(e4, e));
                        Ok(hf(&[e[0], e[1], d]) | 1)
                    });
                }
            }
        }
        // refused: no direction for the rates at the pole, no distance without a parallax
        for (d, m) in [(90.0, [1.0, 1.0, 10.0, 0.0]), (-90.0, [0.0, 0.0, 10.0, 0.0]), (dec, [1.0, 1.0, 0.0, 5.0]), (dec, [1.0, 1.0, -3.0, 5.0])] {
            l.case("space motion refused", &format!("{ra},{d} {m:?}"), || {
                let r = propagate_space_motion(mean(ra, d, 1.0), motion(m), jd(J2000 + 3652.5), jd(J2000));
                ensure!(matches!(r, Err(ProperMotionError::RightAscensionUndefinedAtPole { .. })), "accepted: {r:?}");
                Ok(1)
            });
        }
        // catalogue rates without the third dimension: constant rates in right ascension and declination
        for i in product(&[5, 5, 2]) {
            let (a, b) = ([0.0, 0.01, -0.003, 2.9e-6, 0.3][i[0]], [0.0, -0.005, 0.002, 1e-7, 0.25][i[1]]);
            for &y in &years {
                l.case("proper motion", &format!("{ra},{dec} rates {a},{b} convention {} over {y} yr", i[2]), || {
                    let pm = if i[2] == 0 { ProperMotion::from_mu_alpha::<Degpy>(Quantity::new(a), Quantity::new(b)) } else { ProperMotion::from_mu_alpha_star::<Degpy>(Quantity::new(a), Quantity::new(b)) };
                    let pm2 = if i[2] == 0 { ProperMotion::from_mu_alpha::<Maspy>(Quantity::new(a * 3.6e6), Quantity::new(b * 3.6e6)) } else { ProperMotion::from_mu_alpha_star::<Maspy>(Quantity::new(a * 3.6e6), Quantity::new(b * 3.6e6)) };
                    ensure!(pm.ra_convention == if i[2] == 0 { RaProperMotionConvention::MuAlpha } else { RaProperMotionConvention::MuAlphaStar }, "convention");
                    ensure!((pm.pm_ra.value() - pm2.pm_ra.value()).abs() <= 1e-15 * a.abs().max(1e-9) + 1e-18 && (pm.pm_dec.value() - pm2.pm_dec.value()).abs() <= 1e-15 * b.abs().max(1e-9) + 1e-18, "rates by unit: {pm:?} {pm2:?}");
                    let rate = if i[2] == 0 { a } else { a / (dec * DEG).cos() };
                    let want = sph(ra + rate * y, dec + b * y);
                    for p in [pm, pm2] {
                        let r = set_proper_motion_since_j2000(mean(ra, dec, 42.5), p, jd(J2000 + 365.25 * y)).map_err(|e| e.to_string())?;
                        let (e, d) = at(&r);
                        ensure!(angle(e, want) < 1e-12 * (1.0 + (rate * y).abs()), "{:e} rad from the constant-rate position", angle(e, want));
                        ensure!(d == 42.5, "distance {d}");
                    }
                    Ok(hf(&want) | 1)
                });
            }
        }
        for s in [90.0, -90.0] {
            l.case("proper motion at a pole", &format!("{ra},{s},{dec}"), || {
                let star = set_proper_motion_since_j2000(mean(ra, s, 1.0), ProperMotion::from_mu_alpha_star::<Degpy>(Quantity::new(0.1), Quantity::new(0.1)), jd(J2000 + 100.0));
                ensure!(matches!(star, Err(ProperMotionError::RightAscensionUndefinedAtPole { dec }) if dec.value() == s), "catalogue rate at the pole: {star:?}");
                let plain = set_proper_motion_since_j2000(mean(ra, s, 1.0), ProperMotion::from_mu_alpha::<Degpy>(Quantity::new(0.1), Quantity::new(0.0)), jd(J2000 + 100.0));
                ensure!(plain.is_ok(), "true rate at the pole refused");
                Ok(1)
            });
        }
    });
}

fn dirn(v: V) -> Direction<GCRS> {
    Direction::<GCRS>::new(v[0], v[1], v[2])
}
fn disp(v: V) -> Displacement<GCRS, Au> {
    Displacement::<GCRS, Au>::new(v[0], v[1], v[2])
}
fn arr(d: Direction<GCRS>) -> V {
    [d.x(), d.y(), d.z()]
}
const RS_SUN: f64 = 2.0 * 1.32712440018e20 / (299792458.0 * 299792458.0) / 149597870700.0;

fn deflection(ctx: &Ctx) {
    let bases: Vec<V> = vec![[1.0, 0.0, 0.0], [0.0, -1.0, 0.0], [0.0, 0.0, 1.0], unit([0.3, -0.5, 0.81]), unit([-0.7, -0.7, 0.1])];
    let ps: Vec<f64> = if ctx.tier == Tier::Thorough { (1..720).map(|i| 0.25 * i as f64).chain([0.27, 0.3, 0.4, 179.9, 179.999]).collect() } else { vec![0.27, 0.5, 1.0, 5.0, 20.0, 45.0, 89.0, 90.0, 120.0, 179.0, 179.999] };
    let bodies: [(&str, f64, f64); 3] = [("Sun", 1.0, 1.0), ("Jupiter", 1.0 / 1047.348644, 4.2), ("Saturn", 1.0 / 3497.9018, 9.0)];
    ctx.par(&bases, |l, &e| {
        let side = unit(cross(e, if e[0].abs() < 0.6 { [1.0, 0.0, 0.0] } else { [0.0, 1.0, 0.0] }));
        let up = cross(e, side);
        for &psi in &ps {
            for k in 0..8 {
                let b = k as f64 * std::f64::consts::FRAC_PI_4;
                // e points from the deflecting body to the observer: the body is seen at -e
                let (s, c) = (psi * DEG).sin_cos();
                let star: V = std::array::from_fn(|i| -e[i] * c + s * (b.cos() * side[i] + b.sin() * up[i]));
                for (name, mass, dist0) in bodies {
                    for scale in [1.0, 0.5, 30.0] {
                        let r = dist0 * scale;
                        l.case(&format!("deflection by {name}"), &format!("{e:?} elongation {psi} position angle {k} distance {r}"), || {
                            let q = disp([e[0] * r, e[1] * r, e[2] * r]);
                            let out = arr(match name {
                                "Sun" => ld::solar_deflection(dirn(star), q),
                                "Jupiter" => ld::jupiter_deflection(dirn(star), q),
                                _ => ld::saturn_deflection(dirn(star), q),
                            });
                            let want = RS_SUN * mass / r / (psi * DEG / 2.0).tan(); // (2GM/c2 r) cot(psi/2)
                            let got = angle(star, out);
                            ensure!((norm(out) - 1.0).abs() < 1e-14, "length {}", norm(out));
                            ensure!((got - want).abs() < 1e-5 * want + 3.0 * want * want / (psi * DEG).sin() + 2e-15, "deflected by {:e} rad, Einstein's formula gives {want:e}", got);
                            let es = dot(e, star);
                            let away: V = std::array::from_fn(|i| e[i] - es * star[i]);
                            ensure!(want < 1e-14 || dot(std::array::from_fn(|i| out[i] - star[i]), unit(away)) > 0.9 * want - 2e-15, "bent towards the body");
                            ensure!(dot(out, cross(star, e)).abs() < 2e-15, "bent out of the plane of star and body");
                            let g = arr(ld::body_deflection(dirn(star), q, AstronomicalUnits::new(RS_SUN * mass)));
                            ensure!(angle(g, out) < 1e-5 * want + 1e-15, "the general function differs");
                            if name == "Sun" {
                                let m = ld::solar_deflection_magnitude(Radians::new(psi * DEG), AstronomicalUnits::new(r)).value() / 206264.80624709636;
                                ensure!((m - want).abs() < 1e-5 * want, "magnitude function {m:e}, expected {want:e}");
                                let back = arr(ld::solar_deflection_inverse(dirn(out), q));
                                ensure!(angle(back, star) < 8.0 * want * want / (psi * DEG).sin() + 2e-15, "removing the deflection leaves {:e} rad of {want:e}", angle(back, star));
                            }
                            for z in [0.0, -1e-9] {
                                ensure!(arr(ld::body_deflection(dirn(star), q, AstronomicalUnits::new(z))) == arr(dirn(star)), "a massless body deflects");
                            }
                            ensure!(arr(ld::body_deflection(dirn(star), disp([0.0; 3]), AstronomicalUnits::new(1e-8))) == arr(dirn(star)), "a body at the observer deflects");
                            Ok(hf(&out) | 1)
                        });
                    }
                }
                l.case("chain of deflections", &format!("{e:?} elongation {psi} position angle {k}"), || {
                    let (qs, qj, qt) = (disp([e[0] * 0.98, e[1] * 0.98, e[2] * 0.98]), disp([side[0] * 4.5, side[1] * 4.5, side[2] * 4.5]), disp([-up[0] * 9.2, -up[1] * 9.2, -up[2] * 9.2]));
                    let all = arr(ld::full_planetary_deflection(dirn(star), qs, qj, qt));
                    let step = arr(ld::saturn_deflection(ld::jupiter_deflection(ld::solar_deflection(dirn(star), qs), qj), qt));
                    ensure!(angle(all, step) < 1e-15, "the chain is not its three steps");
                    Ok(hf(&all) | 1)
                });
            }
        }
        l.case("deflection along the line", &format!("{e:?}"), || {
            let q = disp([e[0], e[1], e[2]]);
            ensure!(angle(arr(ld::solar_deflection(dirn(e), q)), e) < 1e-15, "a star opposite the Sun is deflected");
            let b = [-e[0], -e[1], -e[2]];
            let d = arr(ld::solar_deflection(dirn(b), q));
            ensure!(d.iter().all(|x| x.is_finite()) && (norm(d) - 1.0).abs() < 1e-12, "a star at the Sun's centre: {d:?}");
            for a in [0.0, -1.0] {
                ensure!(ld::solar_deflection_magnitude(Radians::new(a), AstronomicalUnits::new(1.0)).value() == 0.0 && ld::solar_deflection_magnitude(Radians::new(1.0), AstronomicalUnits::new(a)).value() == 0.0, "magnitude for a meaningless geometry");
            }
            Ok(1)
        });
    });
}

fn policies(l: &mut Local) {
    let bits = [CorrectionPolicy::PROPER_MOTION, CorrectionPolicy::LIGHT_TIME, CorrectionPolicy::ABERRATION, CorrectionPolicy::LIGHT_DEFLECTION];
    let make = |m: usize| (0..4).filter(|k| m >> k & 1 == 1).fold(CorrectionPolicy::GEOMETRIC, |a, k| a.union(bits[k]));
    for a in 0..16usize {
        for b in 0..16usize {
            l.case("policy", &format!("{a},{b}"), || {
                let (x, y) = (make(a), make(b));
                ensure!(x.contains(y) == (a & b == b), "contains");
                ensure!(x.union(y) == make(a | b) && (x | y) == make(a | b) && x.union(y).bits() == make(a | b).bits(), "union");
                let mut z = x;
                z |= y;
                ensure!(z == make(a | b), "union in place");
                ensure!((x == y) == (a == b) && (x.bits() == y.bits()) == (a == b), "equality");
                let mut ap = AppliedCorrections::from_request(x);
                ensure!(ap.requested == x && ap.applied == CorrectionPolicy::GEOMETRIC && ap.light_time_iters == 0, "a fresh record");
                for (k, s) in bits.iter().enumerate() {
                    if b >> k & 1 == 1 {
                        ap.record(*s);
                    }
                }
                ensure!(ap.applied == y && ap.requested == x, "recorded {:?}", ap.applied);
                Ok((a * 16 + b) as u64 + 1)
            });
        }
    }
    l.case("policy", "constants", || {
        ensure!(CorrectionPolicy::APPARENT == make(15) && CorrectionPolicy::default() == CorrectionPolicy::GEOMETRIC && CorrectionPolicy::GEOMETRIC.bits() == 0, "named policies");
        ensure!(CORRECTION_ORDER == bits, "order {CORRECTION_ORDER:?}");
        Ok(1)
    });
    // a fixed star under every policy: one horizontal direction whichever way it is asked for
    for (si, (lon, lat)) in [(0.0, 51.5), (-70.4, -24.6), (120.0, 0.0), (10.0, 89.0)].into_iter().enumerate() {
        let st = crate::c01::site(lat, lon);
        for (ra, dec) in [(101.287, -16.716), (37.95, 89.26), (279.23, 38.78), (0.0, 0.0), (200.0, -89.0)] {
            for t in [J2000 + 0.3, J2000 + 8766.1, J2000 - 9000.77] {
                for p in 0..16 {
                    l.case("star under a policy", &format!("{si},{ra},{dec},{t},{p}"), || {
                        let pol = make(p);
                        let star = siderust::coordinates::spherical::direction::ICRS::new(Degrees::new(ra), Degrees::new(dec));
                        let h = star_horizontal_with_policy(Degrees::new(ra), Degrees::new(dec), &st, jd(t), pol);
                        let m = siderust::time::ModifiedJulianDate::new(t - 2400000.5);
                        let alt = star.altitude_at_with_policy(&st, m, pol).value() / DEG;
                        let az = star.azimuth_at_with_policy(&st, m, pol).value() / DEG;
                        let (a, b) = (sph(h.azimuth.value(), h.polar.value()), sph(az, alt));
                        // (the instant passes through a Julian date of 40 microseconds' resolution)
                        ensure!(angle(a, b) < 2e-8, "asked directly ({}, {}), through the providers ({az}, {alt})", h.azimuth.value(), h.polar.value());
                        if p == 15 {
                            let d = star_horizontal(Degrees::new(ra), Degrees::new(dec), &st, jd(t));
                            ensure!((d.azimuth.value(), d.polar.value()) == (h.azimuth.value(), h.polar.value()), "the default policy is not the apparent one");
                        }
                        if p != 0 {
                            let d = star_horizontal(Degrees::new(ra), Degrees::new(dec), &st, jd(t));
                            ensure!(angle(sph(d.azimuth.value(), d.polar.value()), a) < 1.2e-4, "an apparent-place policy moves the star by {:e} rad", angle(sph(d.azimuth.value(), d.polar.value()), a));
                        }
                        Ok(hf(&a) | 1)
                    });
                }
            }
        }
    }
}

fn tracked(l: &mut Local) {
    use siderust::bodies::solar_system::*;
    for i in 0..40 {
        let t = jd(J2000 - 20000.0 + 1003.7 * i as f64);
        l.case("tracked bodies", &format!("{}", t.raw().value()), || {
            macro_rules! planet {
                ($($p:ident),+) => { $(
                    let c = $p.track(t);
                    let w = $p::vsop87e(t);
                    ensure!(c.time.raw().value() == t.raw().value() && c.proper_motion.is_none(), "time or motion of {}", stringify!($p));
                    ensure!((c.position.x(), c.position.y(), c.position.z()) == (w.x(), w.y(), w.z()), "{} is not where its series puts it", stringify!($p));
                )+ };
            }
            planet!(Sun, Mercury, Venus, Earth, Mars, Jupiter, Saturn, Uranus, Neptune);
            // distances from the Sun stay within each orbit
            let s = Sun::vsop87e(t);
            macro_rules! range {
                ($($p:ident $lo:literal $hi:literal),+) => { $(
                    let w = $p.track(t).position;
                    let r = ((w.x() - s.x()).value().powi(2) + (w.y() - s.y()).value().powi(2) + (w.z() - s.z()).value().powi(2)).sqrt();
                    ensure!(r > $lo && r < $hi, "{} at {r} au from the Sun", stringify!($p));
                )+ };
            }
            range!(Mercury 0.306 0.468, Venus 0.717 0.729, Earth 0.982 1.018, Mars 1.380 1.667, Jupiter 4.94 5.47, Saturn 9.0 10.13, Uranus 18.2 20.2, Neptune 29.7 30.4);
            let m = Moon.track(t);
            let w = Moon::get_geo_position::<siderust::qtty::unit::Kilometer>(t);
            ensure!((m.x(), m.y(), m.z()) == (w.x(), w.y(), w.z()), "the Moon is not where its series puts it");
            Ok(hf(&[m.x().value()]) | 1)
        });
    }
    for (ra, dec) in [(0.0, 0.0), (359.5, -89.0), (101.28, -16.7), (200.0, 89.99)] {
        l.case("tracked coordinates", &format!("{ra},{dec}"), || {
            let d = siderust::coordinates::spherical::direction::ICRS::new(Degrees::new(ra), Degrees::new(dec));
            let pm = ProperMotion::from_mu_alpha::<Degpy>(Quantity::new(0.1), Quantity::new(0.2));
            let mut c = CoordinateWithPM::new(d, jd(J2000), pm.clone());
            for t in [J2000 - 1e4, J2000, J2000 + 1e4] {
                let (a, b) = (d.track(jd(t)), c.track(jd(t)));
                ensure!((a.azimuth.value(), a.polar.value()) == (d.azimuth.value(), d.polar.value()) && (b.azimuth.value(), b.polar.value()) == (d.azimuth.value(), d.polar.value()), "a fixed direction moved");
            }
            ensure!(c.get_proper_motion().is_some_and(|p| p.pm_ra == pm.pm_ra && p.pm_dec == pm.pm_dec) && c.get_time().raw().value() == J2000, "stored fields");
            let e = siderust::coordinates::spherical::direction::ICRS::new(Degrees::new(ra / 2.0), Degrees::new(dec / 2.0));
            c.update(e, jd(J2000 + 7.0));
            ensure!(c.get_position().azimuth.value() == e.azimuth.value() && c.get_time().raw().value() == J2000 + 7.0 && c.proper_motion.is_some(), "update");
            ensure!(CoordinateWithPM::new_static(d, jd(J2000)).proper_motion.is_none() && CoordinateWithPM::new_raw(d, jd(J2000), Some(pm)).proper_motion.is_some(), "constructors");
            Ok(1)
        });
    }
    let _ = std::marker::PhantomData::<EquatorialMeanJ2000>;
}

pub fn run(tier: Tier) -> Ctx {
    let mut ctx = Ctx::new("C33", "exploration", tier,
        "every star of a grid of right ascensions and declinations (including within 4\" of the poles and around 0 and 180 degrees) x every combination of proper motion, parallax and radial velocity of a grid of fast and slow stars x two catalogue epochs x epochs up to 9000 years away, against straight-line motion, with every propagation also split in two; every deflection geometry from the solar limb to the opposite point in eight position angles for three bodies and three distances; all pairs of the 16 correction policies; all tracked bodies over 110 years. Non-trivial: every case.");
    ctx.assumptions = vec!["straight-line motion without light-time terms, as documented".into(), "the fixed-star horizontal path applies precession and nutation for every policy but the geometric one (no annual aberration), as its documentation lists".into()];
    space(&ctx);
    deflection(&ctx);
    let mut l = Local::default();
    policies(&mut l);
    tracked(&mut l);
    ctx.merge(l);
    ctx
}
