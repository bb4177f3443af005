//! C24: bundled ephemerides and Sun-Earth equilibrium points.
use crate::core::*;
use siderust::bodies::solar_system as ss;
use siderust::coordinates::cartesian::{Position, Velocity};
use siderust::coordinates::centers::{Barycentric, Geocentric, Heliocentric};
use siderust::coordinates::frames::EclipticMeanJ2000;
use siderust::ephemeris::lagrange::fit::{evaluate_fitted, fit_sun_earth_lagrange, FitConfig, FitError, FittedPoint};
use siderust::ephemeris::lagrange::solver::{
    solve_sun_earth_lagrange, solve_sun_earth_lagrange_dyn, solve_sun_earth_lagrange_dyn_with_config, solve_sun_earth_lagrange_with_config, SolverConfig, SolverError,
};
use siderust::ephemeris::lagrange::{sun_earth_lagrange_barycentric, try_sun_earth_lagrange_barycentric, SunEarthLagrangePoint as LP, FIT_FROM_JD, FIT_TO_JD, SUN_EARTH_LAGRANGE_METADATA};
use siderust::ephemeris::{AuPerDay, DynEphemeris, Ephemeris, EphemerisError, MajorPlanet, PlanetPoint, Pluto, Vsop87Ephemeris, VSOP87};
use siderust::qtty::{AstronomicalUnit, Kilometer, Meters, Seconds, AU};
use siderust::targets::Trackable;
use siderust_archive as arch;
use std::cell::RefCell;
use tempoch::{JulianDate, TT};

type V = [f64; 3];
type Jd = JulianDate<TT>;
const AUKM: f64 = 149_597_870.7;
const J2000: f64 = 2_451_545.0;
const DAY: f64 = 86_400.0;

fn jd(x: f64) -> Jd {
    siderust::time::try_jd_f64(x).unwrap()
}
fn au<C: siderust::coordinates::centers::ReferenceCenter>(p: &Position<C, EclipticMeanJ2000, AstronomicalUnit>) -> V {
    [p.x().value(), p.y().value(), p.z().value()]
}
fn km<C: siderust::coordinates::centers::ReferenceCenter>(p: &Position<C, EclipticMeanJ2000, Kilometer>) -> V {
    [p.x().value(), p.y().value(), p.z().value()]
}
fn vel(p: &Velocity<EclipticMeanJ2000, AuPerDay>) -> V {
    [p.x().value(), p.y().value(), p.z().value()]
}
fn add(a: V, b: V) -> V {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
fn sub(a: V, b: V) -> V {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
fn sc(a: V, s: f64) -> V {
    [a[0] * s, a[1] * s, a[2] * s]
}
fn dot(a: V, b: V) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
fn nrm(a: V) -> f64 {
    dot(a, a).sqrt()
}
fn cross(a: V, b: V) -> V {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}

// ---------------------------------------------------------------- series by definition
/// Julian millennia of TDB, from the published three-term TDB-TT relation.
fn tau(x: f64) -> f64 {
    let t = (x - J2000) / 36525.0;
    let g = (357.53 + 35999.05 * t).to_radians();
    let l = (246.11 + 32964.46712 * t).to_radians();
    ((x - J2000) + (0.001657 * (g + 0.0167 * g.sin()).sin() + 0.000022 * l.sin()) / DAY) / 365_250.0
}
fn poisson(s: &[&[arch::vsop::Vsop87]], t: f64) -> f64 {
    s.iter().enumerate().map(|(k, terms)| terms.iter().map(|x| x.a.value() * (x.b.value() + x.c * t).cos()).sum::<f64>() * t.powi(k as i32)).sum()
}
type Series = [Vec<&'static [arch::vsop::Vsop87]>; 3];
struct Body {
    name: &'static str,
    e: Option<Series>,
    a: Option<Series>,
    fe: Option<fn(Jd) -> V>,
    fa: Option<fn(Jd) -> V>,
    /// velocity, then position and velocity together
    ve: Option<fn(Jd) -> (V, V, V)>,
    va: Option<fn(Jd) -> (V, V, V)>,
    /// the same answers through the trait and the tracking interface
    te: Option<fn(Jd) -> V>,
    ta: Option<fn(Jd) -> V>,
    tr: Option<fn(Jd) -> V>,
}
macro_rules! series {
    ($m:ident; $($x:ident)+; $($y:ident)+; $($z:ident)+) => {
        [vec![$(&arch::vsop::$m::$x[..]),+], vec![$(&arch::vsop::$m::$y[..]),+], vec![$(&arch::vsop::$m::$z[..]),+]]
    };
}
macro_rules! planet {
    ($P:ident; $($x:ident)+; $($y:ident)+; $($z:ident)+) => {
        Body {
            name: stringify!($P),
            e: Some(series!(vsop87e_data; $($x)+; $($y)+; $($z)+)),
            a: Some(series!(vsop87a_data; $($x)+; $($y)+; $($z)+)),
            fe: Some(|t| au(&ss::$P::vsop87e(t))),
            fa: Some(|t| au(&ss::$P::vsop87a(t))),
            ve: Some(|t| { let (p, v) = ss::$P::vsop87e_pos_vel(t); (vel(&ss::$P::vsop87e_vel(t)), au(&p), vel(&v)) }),
            va: Some(|t| { let (p, v) = ss::$P::vsop87a_pos_vel(t); (vel(&ss::$P::vsop87a_vel(t)), au(&p), vel(&v)) }),
            te: Some(|t| au(&VSOP87::vsop87e(&ss::$P, t))),
            ta: Some(|t| au(&VSOP87::vsop87a(&ss::$P, t))),
            tr: Some(|t| { let c = ss::$P.track(t); assert!(c.time == t && c.proper_motion.is_none()); au(&c.position) }),
        }
    };
}
fn bodies() -> Vec<Body> {
    vec![
        planet!(Mercury; MERCURY_X0 MERCURY_X1 MERCURY_X2 MERCURY_X3 MERCURY_X4 MERCURY_X5; MERCURY_Y0 MERCURY_Y1 MERCURY_Y2 MERCURY_Y3 MERCURY_Y4 MERCURY_Y5; MERCURY_Z0 MERCURY_Z1 MERCURY_Z2 MERCURY_Z3 MERCURY_Z4 MERCURY_Z5),
        planet!(Venus; VENUS_X0 VENUS_X1 VENUS_X2 VENUS_X3 VENUS_X4 VENUS_X5; VENUS_Y0 VENUS_Y1 VENUS_Y2 VENUS_Y3 VENUS_Y4 VENUS_Y5; VENUS_Z0 VENUS_Z1 VENUS_Z2 VENUS_Z3 VENUS_Z4 VENUS_Z5),
        planet!(Earth; EARTH_X0 EARTH_X1 EARTH_X2 EARTH_X3 EARTH_X4 EARTH_X5; EARTH_Y0 EARTH_Y1 EARTH_Y2 EARTH_Y3 EARTH_Y4 EARTH_Y5; EARTH_Z0 EARTH_Z1 EARTH_Z2 EARTH_Z3 EARTH_Z4 EARTH_Z5),
        planet!(Mars; MARS_X0 MARS_X1 MARS_X2 MARS_X3 MARS_X4 MARS_X5; MARS_Y0 MARS_Y1 MARS_Y2 MARS_Y3 MARS_Y4 MARS_Y5; MARS_Z0 MARS_Z1 MARS_Z2 MARS_Z3 MARS_Z4 MARS_Z5),
        planet!(Jupiter; JUPITER_X0 JUPITER_X1 JUPITER_X2 JUPITER_X3 JUPITER_X4 JUPITER_X5; JUPITER_Y0 JUPITER_Y1 JUPITER_Y2 JUPITER_Y3 JUPITER_Y4 JUPITER_Y5; JUPITER_Z0 JUPITER_Z1 JUPITER_Z2 JUPITER_Z3 JUPITER_Z4 JUPITER_Z5),
        planet!(Saturn; SATURN_X0 SATURN_X1 SATURN_X2 SATURN_X3 SATURN_X4 SATURN_X5; SATURN_Y0 SATURN_Y1 SATURN_Y2 SATURN_Y3 SATURN_Y4 SATURN_Y5; SATURN_Z0 SATURN_Z1 SATURN_Z2 SATURN_Z3 SATURN_Z4 SATURN_Z5),
        planet!(Uranus; URANUS_X0 URANUS_X1 URANUS_X2 URANUS_X3 URANUS_X4; URANUS_Y0 URANUS_Y1 URANUS_Y2 URANUS_Y3 URANUS_Y4; URANUS_Z0 URANUS_Z1 URANUS_Z2 URANUS_Z3),
        planet!(Neptune; NEPTUNE_X0 NEPTUNE_X1 NEPTUNE_X2 NEPTUNE_X3 NEPTUNE_X4; NEPTUNE_Y0 NEPTUNE_Y1 NEPTUNE_Y2 NEPTUNE_Y3 NEPTUNE_Y4; NEPTUNE_Z0 NEPTUNE_Z1 NEPTUNE_Z2 NEPTUNE_Z3),
        Body {
            name: "Sun",
            e: Some(series!(vsop87e_data; SUN_X0 SUN_X1 SUN_X2 SUN_X3 SUN_X4 SUN_X5; SUN_Y0 SUN_Y1 SUN_Y2 SUN_Y3 SUN_Y4 SUN_Y5; SUN_Z0 SUN_Z1 SUN_Z2 SUN_Z3 SUN_Z4 SUN_Z5)),
            a: None,
            fe: Some(|t| au(&ss::Sun::vsop87e(t))),
            fa: None,
            ve: None,
            va: None,
            te: None,
            ta: None,
            tr: Some(|t| au(&ss::Sun.track(t).position)),
        },
        Body {
            name: "EMB",
            e: None,
            a: Some(series!(vsop87a_data; EMB_X0 EMB_X1 EMB_X2 EMB_X3 EMB_X4 EMB_X5; EMB_Y0 EMB_Y1 EMB_Y2 EMB_Y3 EMB_Y4 EMB_Y5; EMB_Z0 EMB_Z1 EMB_Z2 EMB_Z3 EMB_Z4 EMB_Z5)),
            fe: None,
            fa: Some(|t| au(&ss::Moon::vsop87a(t))),
            ve: None,
            va: Some(|t| { let (p, v) = ss::Moon::vsop87a_pos_vel(t); (vel(&ss::Moon::vsop87a_vel(t)), au(&p), vel(&v)) }),
            te: None,
            ta: None,
            tr: None,
        },
    ]
}
/// Derivative per day of a position function (sixth-order central difference).
fn deriv(f: impl Fn(Jd) -> V, x: f64, h: f64) -> V {
    let mut o = [0.0; 3];
    for (k, w) in [(1.0, 3.0 / 4.0), (2.0, -3.0 / 20.0), (3.0, 1.0 / 60.0)] {
        o = add(o, sc(sub(f(jd(x + k * h)), f(jd(x - k * h))), w / h));
    }
    o
}
fn body_case(l: &mut Local, b: &Body, x: f64) {
    let t = tau(x);
    for (v, s, f, vf, tf) in [("E", &b.e, &b.fe, &b.ve, &b.te), ("A", &b.a, &b.fa, &b.va, &b.ta)] {
        let (Some(s), Some(f)) = (s, f) else { continue };
        l.case("series", &format!("{}/{v}/{x}", b.name), || {
            let p = guard(|| f(jd(x)))?;
            for i in 0..3 {
                let w = poisson(&s[i], t);
                ensure!((p[i] - w).abs() <= 5e-11 * (1.0 + nrm(p)), "component {i}: {} while the series sums to {w}", p[i]);
            }
            if let Some(tf) = tf {
                ensure!(guard(|| tf(jd(x)))? == p, "the trait gives another position");
            }
            if let (Some(tr), "E") = (b.tr, v) {
                ensure!(guard(|| tr(jd(x)))? == p, "tracking gives another position");
            }
            Ok(hf(&p))
        });
        let Some(vf) = vf else { continue };
        l.case("velocity", &format!("{}/{v}/{x}", b.name), || {
            let p = f(jd(x));
            let (a, q, c) = guard(|| vf(jd(x)))?;
            ensure!(nrm(sub(p, q)) <= 1e-13 * (1.0 + nrm(p)), "position alone {p:?}, with velocity {q:?}");
            ensure!(nrm(sub(a, c)) <= 1e-13, "velocity alone {a:?}, with position {c:?}");
            let d = deriv(f, x, 0.25);
            ensure!(nrm(sub(a, d)) <= 2e-10 * (1.0 + nrm(p) / 10.0), "velocity {a:?} but positions move at {d:?}");
            Ok(hf(&a))
        });
    }
    if let (Some(e), Some(a)) = (b.fe, b.fa) {
        l.case("centres", &format!("{}/{x}", b.name), || {
            let d = sub(sub(e(jd(x)), au(&ss::Sun::vsop87e(jd(x)))), a(jd(x)));
            let y = (x - J2000).abs() / 365_250.0;
            ensure!(nrm(d) <= (2e-7 + 1e-6 * y * y) * (1.0 + nrm(a(jd(x)))), "barycentric minus Sun differs from heliocentric by {d:?} au");
            Ok(hf(&a(jd(x))))
        });
    }
}

// ---------------------------------------------------------------- the Moon
fn elp(x: f64) -> V {
    use arch::elp::constants as k;
    use arch::elp::elp_data::*;
    let t = (x - J2000) / 36525.0;
    let poly = |c: &[siderust::qtty::Radians]| -> f64 { c.iter().enumerate().map(|(i, v)| v.value() * t.powi(i as i32)).sum() };
    let full: Vec<f64> = (0..4).map(|i| poly(&k::DEL[i])).collect();
    let lin: Vec<f64> = (0..4).map(|i| poly(&k::DEL[i][..2])).collect();
    let z = poly(&k::ZETA);
    let pl: Vec<f64> = (0..8).map(|i| poly(&k::P_ARGS[i])).collect();
    let mut s = [0.0f64; 3];
    for (i, ser) in [&ELP1[..], &ELP2[..], &ELP3[..]].iter().enumerate() {
        for e in ser.iter() {
            let c = e.a + (e.b[0] + k::DTASM * e.b[4]) * (k::DELNP.value() - k::AM * k::DELNU.value()) + e.b[1] * k::DELG.value() + e.b[2] * k::DELE.value() + e.b[3] * k::DELEP.value();
            let y: f64 = (0..4).map(|j| e.ilu[j] as f64 * full[j]).sum();
            s[i] += c * if i == 2 { y.cos() } else { y.sin() };
        }
    }
    let earth: [(&[arch::elp::EarthPert], i32); 21] = [
        (&ELP4, 0), (&ELP5, 0), (&ELP6, 0), (&ELP7, 1), (&ELP8, 1), (&ELP9, 1), (&ELP22, 0), (&ELP23, 0), (&ELP24, 0), (&ELP25, 1), (&ELP26, 1), (&ELP27, 1),
        (&ELP28, 0), (&ELP29, 0), (&ELP30, 0), (&ELP31, 0), (&ELP32, 0), (&ELP33, 0), (&ELP34, 2), (&ELP35, 2), (&ELP36, 2),
    ];
    for (n, (ser, p)) in earth.iter().enumerate() {
        for e in ser.iter() {
            let y = e.o.to_radians() + e.iz * z + (0..4).map(|j| e.ilu[j] as f64 * lin[j]).sum::<f64>();
            s[n % 3] += e.a * t.powi(*p) * y.sin();
        }
    }
    let planet: [(&[arch::elp::PlanetPert], i32, bool); 12] = [
        (&ELP10, 0, false), (&ELP11, 0, false), (&ELP12, 0, false), (&ELP13, 1, false), (&ELP14, 1, false), (&ELP15, 1, false),
        (&ELP16, 0, true), (&ELP17, 0, true), (&ELP18, 0, true), (&ELP19, 1, true), (&ELP20, 1, true), (&ELP21, 1, true),
    ];
    for (n, (ser, p, alt)) in planet.iter().enumerate() {
        for e in ser.iter() {
            let i = |j: usize| e.ipla[j] as f64;
            let y = e.theta.to_radians()
                + if *alt {
                    (0..7).map(|j| i(j) * pl[j]).sum::<f64>() + (0..4).map(|j| i(7 + j) * lin[j]).sum::<f64>()
                } else {
                    (0..8).map(|j| i(j) * pl[j]).sum::<f64>() + i(8) * lin[0] + i(9) * lin[2] + i(10) * lin[3]
                };
            s[n % 3] += e.o * t.powi(*p) * y.sin();
        }
    }
    let lon = (s[0] / 3600.0).to_radians() + poly(&k::W1);
    let lat = (s[1] / 3600.0).to_radians();
    let r = s[2] * k::A0.value() / k::ATH.value();
    let v = [r * lat.cos() * lon.cos(), r * lat.cos() * lon.sin(), r * lat.sin()];
    let p = (((((k::P5 * t + k::P4) * t + k::P3) * t) + k::P2) * t + k::P1) * t;
    let q = (((((k::Q5 * t + k::Q4) * t + k::Q3) * t) + k::Q2) * t + k::Q1) * t;
    let w = 2.0 * (1.0 - p * p - q * q).sqrt();
    [
        (1.0 - 2.0 * p * p) * v[0] + 2.0 * p * q * v[1] + p * w * v[2],
        2.0 * p * q * v[0] + (1.0 - 2.0 * q * q) * v[1] - q * w * v[2],
        -p * w * v[0] + q * w * v[1] + (1.0 - 2.0 * p * p - 2.0 * q * q) * v[2],
    ]
}
fn moon_case(l: &mut Local, x: f64) {
    l.case("moon", &format!("{x}"), || {
        let p = km(&guard(|| ss::Moon::get_geo_position::<Kilometer>(jd(x)))?);
        let w = elp(x);
        ensure!(nrm(sub(p, w)) <= 1e-3, "position {p:?} while the lunar series give {w:?}");
        let a = au(&ss::Moon::get_geo_position::<AstronomicalUnit>(jd(x)));
        ensure!(nrm(sub(sc(a, AUKM), p)) <= 1e-5, "unit changes the position");
        ensure!(km(&ss::Moon.track(jd(x))) == p, "tracking gives another position");
        let far = (x - J2000).abs() > 36525.0 * 10.0;
        ensure!(far || (356_000.0..407_000.0).contains(&nrm(p)), "distance {}", nrm(p));
        Ok(hf(&p))
    });
    if (x - J2000).abs() < 36525.0 * 5.0 {
        l.case("mass-ratio", &format!("{x}"), || {
            // the Earth-Moon barycentre lies on the line to the Moon, at the mass fraction
            let d = sc(sub(au(&ss::Moon::vsop87a(jd(x))), au(&ss::Earth::vsop87a(jd(x)))), AUKM);
            let w = sc(km(&ss::Moon::get_geo_position::<Kilometer>(jd(x))), 1.0 / (1.0 + 81.300_57));
            ensure!(nrm(sub(d, w)) <= 25.0, "barycentre {d:?} km from the Earth, the mass ratio gives {w:?}");
            Ok(hf(&w))
        });
    }
}
/// the closed-form Moon: exact in its frame conversion, within the truncated terms of the full theory
fn meeus(l: &mut Local, year: i32) {
    use siderust::event::lunar::meeus_ch47::moon_position_meeus_ch47;
    let (mut sl, mut sb, mut sr, mut n) = (0.0, 0.0, 0.0, 0.0);
    for k in 0..500 {
        let x = J2000 + year as f64 * 365.25 + k as f64 * 7.305;
        l.case("closed-form moon", &format!("{x}"), || {
            let m = guard(|| moon_position_meeus_ch47(jd(x)))?;
            let t = (x - J2000) / 36525.0;
            let e = ((84381.406 - 46.836769 * t - 0.0001831 * t * t + 0.0020034 * t * t * t) / 3600.0f64).to_radians();
            let (lo, la, ra, de) = (m.ecl_lon.value(), m.ecl_lat.value(), m.ra.value(), m.dec.value());
            let v = [la.cos() * lo.cos(), la.cos() * lo.sin(), la.sin()];
            let w = [v[0], v[1] * e.cos() - v[2] * e.sin(), v[1] * e.sin() + v[2] * e.cos()];
            let u = [de.cos() * ra.cos(), de.cos() * ra.sin(), de.sin()];
            ensure!(nrm(sub(u, w)) < 1e-9, "equatorial and ecliptic places differ by {:e}", nrm(sub(u, w)));
            ensure!((0.0..=std::f64::consts::TAU).contains(&lo) && (0.0..=std::f64::consts::TAU).contains(&ra), "longitude {lo} right ascension {ra}");
            let p = km(&ss::Moon::get_geo_position::<Kilometer>(jd(x)));
            // general precession in longitude from J2000 to the date
            let d = (lo - p[1].atan2(p[0]) - ((5028.796 * t + 1.1054 * t * t) / 3600.0f64).to_radians()).to_degrees();
            let d = (d + 180.0).rem_euclid(360.0) - 180.0;
            let b = (la - (p[2] / nrm(p)).asin()).to_degrees();
            let r = m.dist.value() - nrm(p);
            sl += d * d;
            sb += b * b;
            sr += r * r;
            n += 1.0;
            ensure!(d.abs() < 0.40 && b.abs() < 0.35 && r.abs() < 1500.0, "off by {d} deg, {b} deg, {r} km");
            Ok(hf(&u))
        });
    }
    l.case("closed-form moon over ten years", &format!("{year}"), || {
        let (a, b, r) = ((sl / n as f64).sqrt(), (sb / n as f64).sqrt(), (sr / n as f64).sqrt());
        ensure!(a < 0.12 && b < 0.10 && r < 450.0, "root mean square {a} deg, {b} deg, {r} km");
        Ok(hf(&[a, b, r]))
    });
}
fn pluto(x: f64) -> V {
    use arch::pluto::pluto_data::*;
    let t = (x - J2000) / 36525.0;
    let (j, s, p) = (34.35 + 3034.9057 * t, 50.08 + 1222.1138 * t, 238.96 + 144.96 * t);
    let (mut l, mut b, mut r) = (0.0, 0.0, 0.0);
    for i in 0..PLUTO_ARGUMENTS.len() {
        let a = (PLUTO_ARGUMENTS[i].j * j + PLUTO_ARGUMENTS[i].s * s + PLUTO_ARGUMENTS[i].p * p).to_radians();
        l += PLUTO_LONGITUDE_TERMS[i].a * a.sin() + PLUTO_LONGITUDE_TERMS[i].b * a.cos();
        b += PLUTO_LATITUDE_TERMS[i].a * a.sin() + PLUTO_LATITUDE_TERMS[i].b * a.cos();
        r += PLUTO_RADIUS_TERMS[i].a * a.sin() + PLUTO_RADIUS_TERMS[i].b * a.cos();
    }
    let (l, b, r) = ((238.958116 + 144.96 * t + l * 1e-6).to_radians(), (-3.908239 + b * 1e-6).to_radians(), 40.7241346 + r * 1e-7);
    [r * b.cos() * l.cos(), r * b.cos() * l.sin(), r * b.sin()]
}

// ---------------------------------------------------------------- interfaces
#[derive(Clone, Copy, Default)]
struct Par {
    /// constant velocity and place of the Sun (km, km/s at J2000)
    sun: V,
    sunv: V,
    d: f64,
    e: f64,
    inc: f64,
    lon: f64,
    /// mean motion factor relative to two-body motion
    rate: f64,
    moon: V,
    /// refuse: bit 0 Sun, 1 Earth, 2 Moon, 3 only away from the epoch `at`
    fail: u8,
    at: f64,
    /// let the Earth coincide with the Sun / move radially
    mode: u8,
}
thread_local!(static PAR: RefCell<Par> = RefCell::new(Par::default()));
struct Synth;
const GS: f64 = siderust::qtty::GM_SUN.value();
const GE: f64 = siderust::qtty::GM_EARTH.value();
const GM: f64 = siderust::qtty::GM_MOON.value();
fn synth_rel(p: &Par, x: f64) -> V {
    let n = p.rate * ((GS + GE) / p.d.powi(3)).sqrt();
    let m = n * (x - J2000) * DAY + p.lon;
    let mut ea = m;
    for _ in 0..60 {
        ea -= (ea - p.e * ea.sin() - m) / (1.0 - p.e * ea.cos());
    }
    let (a, b) = (p.d * (ea.cos() - p.e), p.d * (1.0 - p.e * p.e).sqrt() * ea.sin());
    match p.mode {
        1 => [0.0; 3],
        2 => [p.d + 10.0 * (x - J2000), 0.0, 0.0],
        _ => [a, b * p.inc.cos(), b * p.inc.sin()],
    }
}
fn synth(which: u8, t: Jd) -> Result<V, EphemerisError> {
    let x = t.raw().value();
    PAR.with(|p| {
        let p = p.borrow();
        if p.fail & (1 << which) != 0 && (p.fail & 8 == 0 || (x - p.at).abs() > 1e-4) {
            return Err(EphemerisError::OutOfRange { jd: x, start_jd: 1.0, end_jd: 2.0 });
        }
        let s = add(p.sun, sc(p.sunv, (x - J2000) * DAY));
        Ok(match which {
            0 => s,
            1 => add(s, synth_rel(&p, x)),
            _ => p.moon,
        })
    })
}
fn pau<C: siderust::coordinates::centers::ReferenceCenter<Params = ()>>(v: V) -> Position<C, EclipticMeanJ2000, AstronomicalUnit> {
    Position::new(v[0] / AUKM * AU, v[1] / AUKM * AU, v[2] / AUKM * AU)
}
fn pkm<C: siderust::coordinates::centers::ReferenceCenter<Params = ()>>(v: V) -> Position<C, EclipticMeanJ2000, Kilometer> {
    let k = siderust::qtty::Kilometers::new;
    Position::new(k(v[0]), k(v[1]), k(v[2]))
}
impl Ephemeris for Synth {
    fn try_sun_barycentric(t: Jd) -> Result<Position<Barycentric, EclipticMeanJ2000, AstronomicalUnit>, EphemerisError> {
        synth(0, t).map(pau)
    }
    fn sun_barycentric(t: Jd) -> Position<Barycentric, EclipticMeanJ2000, AstronomicalUnit> {
        pau(synth(0, t).unwrap())
    }
    fn try_earth_barycentric(t: Jd) -> Result<Position<Barycentric, EclipticMeanJ2000, AstronomicalUnit>, EphemerisError> {
        synth(1, t).map(pau)
    }
    fn earth_barycentric(t: Jd) -> Position<Barycentric, EclipticMeanJ2000, AstronomicalUnit> {
        pau(synth(1, t).unwrap())
    }
    fn earth_heliocentric(t: Jd) -> Position<Heliocentric, EclipticMeanJ2000, AstronomicalUnit> {
        pau(sub(synth(1, t).unwrap(), synth(0, t).unwrap()))
    }
    fn earth_barycentric_velocity(_: Jd) -> Velocity<EclipticMeanJ2000, AuPerDay> {
        Velocity::new(siderust::qtty::Quantity::<AuPerDay>::new(1.0), siderust::qtty::Quantity::<AuPerDay>::new(2.0), siderust::qtty::Quantity::<AuPerDay>::new(3.0))
    }
    fn try_moon_geocentric(t: Jd) -> Result<Position<Geocentric, EclipticMeanJ2000, Kilometer>, EphemerisError> {
        synth(2, t).map(pkm)
    }
    fn moon_geocentric(t: Jd) -> Position<Geocentric, EclipticMeanJ2000, Kilometer> {
        pkm(synth(2, t).unwrap())
    }
}
/// Every method labels its answer: the default and dynamic routes must reach the right one.
struct Tagged;
macro_rules! tag {
    ($v:expr, $t:expr) => {
        [$v, $t.raw().value() * 1e-6, 0.0]
    };
}
impl Ephemeris for Tagged {
    fn sun_barycentric(t: Jd) -> Position<Barycentric, EclipticMeanJ2000, AstronomicalUnit> {
        pau(tag!(1.0, t))
    }
    fn earth_barycentric(t: Jd) -> Position<Barycentric, EclipticMeanJ2000, AstronomicalUnit> {
        pau(tag!(2.0, t))
    }
    fn earth_heliocentric(t: Jd) -> Position<Heliocentric, EclipticMeanJ2000, AstronomicalUnit> {
        pau(tag!(3.0, t))
    }
    fn earth_barycentric_velocity(t: Jd) -> Velocity<EclipticMeanJ2000, AuPerDay> {
        let q = siderust::qtty::Quantity::<AuPerDay>::new;
        Velocity::new(q(4.0), q(t.raw().value()), q(0.0))
    }
    fn moon_geocentric(t: Jd) -> Position<Geocentric, EclipticMeanJ2000, Kilometer> {
        pkm(tag!(5.0, t))
    }
}
fn interface<E: Ephemeris + 'static>(l: &mut Local, name: &str, e: E, x: f64) {
    let d: &dyn DynEphemeris = &e;
    l.case("interface", &format!("{name}/{x}"), || {
        let t = jd(x);
        let a = [au(&E::sun_barycentric(t)), au(&E::earth_barycentric(t)), au(&E::earth_heliocentric(t)), vel(&E::earth_barycentric_velocity(t)), km(&E::moon_geocentric(t))];
        let b = [au(&d.sun_barycentric(t)), au(&d.earth_barycentric(t)), au(&d.earth_heliocentric(t)), vel(&d.earth_barycentric_velocity(t)), km(&d.moon_geocentric(t))];
        let e1 = |e: EphemerisError| format!("refused: {e}");
        let c = [
            au(&E::try_sun_barycentric(t).map_err(e1)?),
            au(&E::try_earth_barycentric(t).map_err(e1)?),
            au(&E::try_earth_heliocentric(t).map_err(e1)?),
            vel(&E::try_earth_barycentric_velocity(t).map_err(e1)?),
            km(&E::try_moon_geocentric(t).map_err(e1)?),
        ];
        let f = [
            au(&d.try_sun_barycentric(t).map_err(e1)?),
            au(&d.try_earth_barycentric(t).map_err(e1)?),
            au(&d.try_earth_heliocentric(t).map_err(e1)?),
            vel(&d.try_earth_barycentric_velocity(t).map_err(e1)?),
            km(&d.try_moon_geocentric(t).map_err(e1)?),
        ];
        ensure!(a == b, "dynamic {b:?}, static {a:?}");
        ensure!(a == c && a == f, "checked and plain answers differ: {a:?} {c:?} {f:?}");
        if name == "tagged" {
            ensure!((0..5).all(|i| (a[i][0] * if i < 3 { AUKM } else { 1.0 } - (i + 1) as f64).abs() < 1e-6), "answers of another method: {a:?}");
        } else {
            let w = [
                au(&ss::Sun::vsop87e(t)),
                au(&ss::Earth::vsop87e(t)),
                au(&ss::Earth::vsop87a(t)),
                vel(&ss::Earth::vsop87e_vel(t)),
                km(&ss::Moon::get_geo_position::<Kilometer>(t)),
            ];
            ensure!(a == w, "the default backend gives {a:?}, its series {w:?}");
        }
        Ok(hf(&a.concat()))
    });
}
fn failing(l: &mut Local) {
    for f in 0..8u8 {
        l.case("refusing", &format!("{f}"), || {
            PAR.with(|p| *p.borrow_mut() = Par { fail: f, d: AUKM, rate: 1.0, ..Par::default() });
            let d: &dyn DynEphemeris = &Synth;
            let t = jd(J2000 + 5.0);
            let got = [d.try_sun_barycentric(t).is_err(), d.try_earth_barycentric(t).is_err(), d.try_moon_geocentric(t).is_err()];
            let want = [f & 1 != 0, f & 2 != 0, f & 4 != 0];
            ensure!(got == want, "refusals {got:?}, expected {want:?}");
            Ok(1 + f as u64)
        });
    }
    use MajorPlanet::*;
    for (p, n) in [(Mercury, 1), (Venus, 2), (Mars, 4), (Jupiter, 5), (Saturn, 6), (Uranus, 7), (Neptune, 8)] {
        l.case("naif", &format!("{p:?}"), || {
            ensure!(p.system_barycenter_naif_id() == n && p.naif_id(PlanetPoint::SystemBarycenter) == n, "barycentre {}", p.system_barycenter_naif_id());
            ensure!(p.center_naif_id() == n * 100 + 99 && p.naif_id(PlanetPoint::Center) == n * 100 + 99, "centre {}", p.center_naif_id());
            Ok(n as u64)
        });
    }
}
/// Mean elements of the bundled planets: the body they describe is where the series put it.
fn elements(l: &mut Local, x: f64) {
    let list: [(&str, &siderust::bodies::Planet, fn(Jd) -> V, f64); 9] = [
        ("Mercury", &ss::MERCURY, |t| au(&ss::Mercury::vsop87a(t)), 0.02),
        ("Venus", &ss::VENUS, |t| au(&ss::Venus::vsop87a(t)), 0.02),
        ("Earth", &ss::EARTH, |t| au(&ss::Earth::vsop87a(t)), 0.02),
        ("Mars", &ss::MARS, |t| au(&ss::Mars::vsop87a(t)), 0.02),
        ("Jupiter", &ss::JUPITER, |t| au(&ss::Jupiter::vsop87a(t)), 0.03),
        ("Saturn", &ss::SATURN, |t| au(&ss::Saturn::vsop87a(t)), 0.05),
        ("Uranus", &ss::URANUS, |t| au(&ss::Uranus::vsop87a(t)), 0.05),
        ("Neptune", &ss::NEPTUNE, |t| au(&ss::Neptune::vsop87a(t)), 0.05),
        ("Pluto", &ss::PLUTO, |t| au(&Pluto::get_heliocentric(t)), 0.05),
    ];
    for (n, p, f, tol) in list {
        l.case("elements", &format!("{n}/{x}"), || {
            let k = p.orbit.kepler_position(jd(x));
            let k = [k.x().value(), k.y().value(), k.z().value()];
            let s = f(jd(x));
            ensure!(nrm(sub(k, s)) <= tol * nrm(s), "elements put it at {k:?}, the series at {s:?} (relative {})", nrm(sub(k, s)) / nrm(s));
            Ok(hf(&k))
        });
    }
}

// ---------------------------------------------------------------- equilibrium points
const PTS: [LP; 5] = [LP::L1, LP::L2, LP::L3, LP::L4, LP::L5];
struct Frame {
    sun: V,
    earth: V,
    moon: V,
    org: V,
    w: V,
    acc: V,
    d: f64,
}
fn frame(sun: V, earth: V, moon_geo: V, relv: V) -> Frame {
    let r = sub(earth, sun);
    let d = nrm(r);
    let w = sc(cross(r, relv), 1.0 / (d * d));
    let moon = add(earth, moon_geo);
    let pull = |p: V| { let q = sub(moon, p); let n = nrm(q); if n > 0.0 { sc(q, GM / n.powi(3)) } else { [0.0; 3] } };
    Frame {
        sun, earth, moon,
        org: sc(add(sc(sun, GS), sc(earth, GE)), 1.0 / (GS + GE)),
        w,
        acc: sc(add(sc(pull(sun), GS), sc(pull(earth), GE)), 1.0 / (GS + GE)),
        d,
    }
}
/// Gravity minus the motion of the rotating frame: zero at an equilibrium point.
fn unbalance(f: &Frame, p: V) -> V {
    let g = |b: V, mu: f64| { let q = sub(b, p); sc(q, mu / nrm(q).powi(3)) };
    let gr = add(add(g(f.sun, GS), g(f.earth, GE)), g(f.moon, GM));
    sub(sub(gr, f.acc), cross(f.w, cross(f.w, sub(p, f.org))))
}
fn eph_frame<E: Ephemeris>(x: f64) -> Frame {
    let rel = |y: f64| sub(au(&E::earth_barycentric(jd(y))), au(&E::sun_barycentric(jd(y))));
    let h = 0.01;
    let v = sc(sub(rel(x + h), rel(x - h)), AUKM / (((x + h) - (x - h)) * DAY));
    frame(sc(au(&E::sun_barycentric(jd(x))), AUKM), sc(au(&E::earth_barycentric(jd(x))), AUKM), km(&E::moon_geocentric(jd(x))), v)
}
/// Position of a vector in the rotating frame: along the Sun-Earth line, ahead, and north.
fn local(f: &Frame, p: V) -> V {
    let x = sc(sub(f.earth, f.sun), 1.0 / f.d);
    let z = sc(f.w, 1.0 / nrm(f.w));
    let y = cross(z, x);
    let q = sub(p, f.sun);
    [dot(q, x) / f.d, dot(q, y) / f.d, dot(q, z) / f.d]
}
/// `slack`: how far from the ideal circular configuration the geometry may be
fn shape(pt: LP, q: V, slack: f64) -> Result<(), String> {
    let want = match pt {
        LP::L1 => [0.99, 0.0, 0.0],
        LP::L2 => [1.01, 0.0, 0.0],
        LP::L3 => [-1.0, 0.0, 0.0],
        LP::L4 => [0.5, 0.75f64.sqrt(), 0.0],
        LP::L5 => [0.5, -(0.75f64.sqrt()), 0.0],
    };
    let side = match pt {
        LP::L1 => q[0] > 0.0 && q[0] < 1.0,
        LP::L2 => q[0] > 1.0,
        LP::L3 => q[0] < 0.0,
        LP::L4 => q[1] > 0.0,
        LP::L5 => q[1] < 0.0,
    };
    ensure!(side, "{pt:?} at {q:?} of the Sun-Earth distance: wrong side");
    ensure!(nrm(sub(q, want)) <= slack, "{pt:?} at {q:?} of the Sun-Earth distance, expected about {want:?}");
    Ok(())
}
/// Forces balance at `p`: along the orbit they vary so slowly at L3-L5 that a kilometre is 3e-19 km/s2.
fn settled(f: &Frame, pt: LP, p: V) -> Result<(), String> {
    let u = unbalance(f, p);
    let r = sub(p, f.org);
    let along = dot(u, cross(f.w, r)) / nrm(cross(f.w, r));
    ensure!(nrm(u) <= 1e-16, "forces at {pt:?} unbalanced by {} km/s2", nrm(u));
    ensure!(along.abs() <= 5e-19 || matches!(pt, LP::L1 | LP::L2), "forces along the orbit at {pt:?} unbalanced by {along} km/s2");
    Ok(())
}
fn balance<E: Ephemeris + 'static>(e: E, pt: LP, x: f64, slack: f64) -> Outcome {
    let s = solve_sun_earth_lagrange::<E>(pt, jd(x)).map_err(|e| format!("no solution: {e}"))?;
    let p = km(&s.position);
    let f = eph_frame::<E>(x);
    settled(&f, pt, p)?;
    ensure!(s.residual_norm_km_s2.is_finite() && s.residual_norm_km_s2 <= 1e-6 && s.iterations <= 50, "diagnostics {s:?}");
    shape(pt, local(&f, p), slack)?;
    let d = solve_sun_earth_lagrange_dyn(&e, pt, jd(x)).map_err(|e| format!("dynamic: no solution: {e}"))?;
    ensure!(d == s, "dynamic solver {d:?}, static {s:?}");
    let c = solve_sun_earth_lagrange_with_config::<E>(pt, jd(x), SolverConfig::default()).map_err(|e| format!("{e}"))?;
    let cd = solve_sun_earth_lagrange_dyn_with_config(&e, pt, jd(x), SolverConfig::default(), None).map_err(|e| format!("{e}"))?;
    ensure!(c == s && cd == s, "explicit default settings change the solution");
    // a start at, and near, the answer leads back to it
    for off in [[0.0; 3], [1000.0, -500.0, 300.0], [-2e4, 1e4, 5e3]] {
        let r = solve_sun_earth_lagrange_dyn_with_config(&e, pt, jd(x), SolverConfig::default(), Some(pkm(add(p, off)))).map_err(|e| format!("seeded: {e}"))?;
        let q = km(&r.position);
        settled(&f, pt, q).map_err(|e| format!("seeded: {e}"))?;
        ensure!(nrm(sub(q, p)) <= 1.0, "seeded at {off:?} from the answer: ends {} km away", nrm(sub(q, p)));
    }
    Ok(hf(&p))
}
fn synth_case(l: &mut Local, q: &Par, tag: &str, pt: LP) {
    PAR.with(|p| *p.borrow_mut() = *q);
    // the perturbation by the Moon and by an uneven rate move the points from their ideal places
    let slack = 0.02 + 3.0 * q.e + 1.5 * (q.rate - 1.0).abs();
    l.case("balance", &format!("{tag}/{pt:?}"), || {
        let r = balance(Synth, pt, J2000, slack)?;
        if q.e == 0.0 && q.rate == 1.0 && nrm(q.moon) > 1e9 && matches!(pt, LP::L4 | LP::L5) {
            let s = km(&solve_sun_earth_lagrange::<Synth>(pt, jd(J2000)).unwrap().position);
            let f = eph_frame::<Synth>(J2000);
            let (a, b) = (nrm(sub(s, f.sun)), nrm(sub(s, f.earth)));
            ensure!((a - f.d).abs() < 5.0 && (b - f.d).abs() < 5.0 + 1e-7 * f.d / 3e-6 * 1e-3, "no equilateral triangle: {a} {b} {}", f.d);
        }
        Ok(r)
    });
}
fn configs(l: &mut Local) {
    PAR.with(|p| *p.borrow_mut() = Par { d: AUKM, rate: 1.0, moon: [384_400.0, 0.0, 0.0], ..Par::default() });
    for pt in PTS {
        PAR.with(|p| *p.borrow_mut() = Par { d: AUKM, rate: 1.0, moon: [384_400.0, 0.0, 0.0], ..Par::default() });
        let full = solve_sun_earth_lagrange::<Synth>(pt, jd(J2000)).ok();
        for n in 0..=12usize {
            for (step, res) in [(1e-6, 1e-14), (0.0, 0.0), (1e3, 1e-14), (1e-6, 1e-9), (f64::INFINITY, 0.0)] {
                for h in [1.0, 0.1, 10.0] {
                    l.case("settings", &format!("{pt:?}/{n}/{step:e}/{res:e}/{h}"), || {
                        let c = SolverConfig { max_iterations: n, step_tolerance_km: step, finite_difference_step_km: h, residual_tolerance_km_s2: res };
                        let r = guard(|| solve_sun_earth_lagrange_with_config::<Synth>(pt, jd(J2000), c))?;
                        let f = eph_frame::<Synth>(J2000);
                        match r {
                            Ok(s) => {
                                ensure!(n > 0, "a solution without an iteration");
                                ensure!(s.iterations <= n, "{} iterations of {n}", s.iterations);
                                let p = km(&s.position);
                                // accepted by the residual, by the step or as good enough
                                let u = nrm(unbalance(&f, p));
                                ensure!(u <= res.max(1e-6) * 1.01 + 1e-13 || s.step_norm_km <= step, "accepted with an unbalance of {u}");
                                ensure!(res > 0.0 && s.residual_norm_km_s2 <= res || s.step_norm_km <= step || s.residual_norm_km_s2 <= 1e-6, "accepted without meeting a tolerance: {s:?}");
                                if step < 1e-3 && n >= 12 && res <= 1e-13 {
                                    let w = full.as_ref().ok_or("no reference")?;
                                    // a residual of 1e-14 leaves the slow direction of L3-L5 open by 40 000 km
                                    let far = if res == 0.0 || matches!(pt, LP::L1 | LP::L2) { 0.1 } else { 1e5 };
                                    ensure!(nrm(sub(p, km(&w.position))) < far, "converged {} km elsewhere", nrm(sub(p, km(&w.position))));
                                }
                                Ok(hf(&p))
                            }
                            Err(SolverError::DidNotConverge { iterations, .. }) => {
                                ensure!(iterations == n, "reports {iterations} iterations of {n}");
                                ensure!(n < 4, "no convergence in {n} iterations");
                                Ok(1)
                            }
                            Err(e) => Err(format!("{e}")),
                        }
                    });
                }
            }
        }
        for f in 1..16u8 {
            l.case("refusing-solver", &format!("{pt:?}/{f}"), || {
                PAR.with(|p| *p.borrow_mut() = Par { d: AUKM, rate: 1.0, moon: [384_400.0, 0.0, 0.0], fail: f, at: J2000, ..Par::default() });
                // away from the epoch only the Sun and the Earth are needed
                let bad = if f & 8 != 0 { f & 3 != 0 } else { f & 7 != 0 };
                let a = guard(|| solve_sun_earth_lagrange::<Synth>(pt, jd(J2000)))?;
                let b = guard(|| solve_sun_earth_lagrange_dyn(&Synth, pt, jd(J2000)))?;
                ensure!(a == b, "static {a:?}, dynamic {b:?}");
                match a {
                    Err(SolverError::Ephemeris(EphemerisError::OutOfRange { start_jd, end_jd, .. })) => ensure!(bad && start_jd == 1.0 && end_jd == 2.0, "unexpected refusal"),
                    Ok(_) => ensure!(!bad, "solved although the ephemeris refused"),
                    Err(e) => return Err(format!("{e}")),
                }
                let fit = guard(|| fit_sun_earth_lagrange(&Synth, pt, FitConfig { from: jd(J2000), to: jd(J2000 + 8.0), block: Seconds::new(8.0 * DAY), validation_step: Seconds::new(DAY), ..FitConfig::default() }))?;
                let fbad = f & 7 != 0;
                ensure!(matches!(fit, Err(FitError::Solver(SolverError::Ephemeris(_)))) == fbad, "fit with a refusing ephemeris: {:?}", fit.map(|x| x.ncoeff));
                Ok(1 + f as u64)
            });
        }
        l.case("degenerate", &format!("{pt:?}"), || {
            PAR.with(|p| *p.borrow_mut() = Par { d: AUKM, rate: 1.0, moon: [384_400.0, 0.0, 0.0], mode: 1, ..Par::default() });
            let r = guard(|| solve_sun_earth_lagrange::<Synth>(pt, jd(J2000)))?;
            ensure!(matches!(r, Err(SolverError::DegenerateFrame)), "Earth and Sun at one place: {r:?}");
            PAR.with(|p| p.borrow_mut().mode = 2);
            guard(|| solve_sun_earth_lagrange::<Synth>(pt, jd(J2000)))?.ok();
            Ok(1)
        });
    }
}
fn cheb(c: &[f64], t: f64) -> f64 {
    c.iter().enumerate().map(|(k, v)| v * (k as f64 * t.clamp(-1.0, 1.0).acos()).cos()).sum()
}
fn eval_records(rec: &[f64], n: usize, s: f64) -> Vec<V> {
    rec.chunks_exact(2 + 3 * n)
        .filter(|r| s >= r[0] - r[1] && s <= r[0] + r[1])
        .map(|r| { let t = (s - r[0]) / r[1]; [cheb(&r[2..2 + n], t), cheb(&r[2 + n..2 + 2 * n], t), cheb(&r[2 + 2 * n..], t)] })
        .collect()
}
fn fits<E: Ephemeris + 'static>(l: &mut Local, name: &str, e: E, pt: LP, from: f64, span: f64, block: f64, step: f64, tol: f64) {
    l.case("fit", &format!("{name}/{pt:?}/{from}+{span}/{block}/{step}/{tol}"), || {
        let c = FitConfig { from: jd(from), to: jd(from + span), block: Seconds::new(block * DAY), validation_step: Seconds::new(step * DAY), tolerance: Meters::new(tol), solver: SolverConfig::default() };
        let r = guard(|| fit_sun_earth_lagrange(&e, pt, c))?;
        let f: FittedPoint = match r {
            Ok(f) => f,
            Err(FitError::ToleranceNotMet { max_abs_error }) => {
                ensure!(max_abs_error.value() > tol, "refused although the error {} is within {tol}", max_abs_error.value());
                // the default series resolve time to 40 microseconds, which moves the frame's rate
                ensure!(max_abs_error.value() < if name == "synthetic" { 100.0 } else { 6000.0 }, "no fit within {tol} m: {}", max_abs_error.value());
                return Ok(1);
            }
            Err(e) => return Err(format!("{e}")),
        };
        ensure!(f.point == pt && [16, 24, 32, 40, 48].contains(&f.ncoeff), "{:?} {}", f.point, f.ncoeff);
        let n = (span / block - 1e-9).ceil() as usize;
        let len = 2 + 3 * f.ncoeff;
        ensure!(f.records.len() == n * len, "{} numbers for {n} blocks", f.records.len());
        ensure!(f.stats.max_abs_error.value() <= tol && f.stats.rms_error.value() <= f.stats.max_abs_error.value(), "statistics {:?}", f.stats);
        // blocks tile the span in order
        let mut at = (from - J2000) * DAY;
        for (i, r) in f.records.chunks_exact(len).enumerate() {
            let (a, b) = (r[0] - r[1], r[0] + r[1]);
            ensure!((a - at).abs() < 1e-5 && b > a, "block {i} begins at {a}, the last ended at {at}");
            ensure!(i + 1 == n || (b - a - block * DAY).abs() < 1e-4, "block {i} lasts {}", b - a);
            at = b;
        }
        ensure!((at - (from + span - J2000) * DAY).abs() < 1e-4, "blocks end at {at}");
        // accuracy on and off the validation grid, and at the edges of the blocks
        let (mut worst, mut sq, mut cnt) = (0.0f64, 0.0, 0);
        let m = (span / step + 1e-9).floor() as usize;
        let ev = |x: f64| -> Result<V, String> { evaluate_fitted(&f, jd(x)).map(|p| sc(au(&p), AUKM)).map_err(|e| format!("at {x}: {e}")) };
        let truth = |x: f64| -> Result<V, String> { solve_sun_earth_lagrange::<E>(pt, jd(x)).map(|s| km(&s.position)).map_err(|e| format!("{e}")) };
        for i in 0..=m {
            let x = from + i as f64 * step;
            let d = 1000.0 * nrm(sub(ev(x)?, truth(x)?));
            worst = worst.max(d);
            sq += d * d;
            cnt += 1;
        }
        let rms = (sq / cnt as f64).sqrt();
        ensure!((worst - f.stats.max_abs_error.value()).abs() <= 1e-3 * worst + 0.02, "worst error {worst} m, reported {}", f.stats.max_abs_error.value());
        ensure!((rms - f.stats.rms_error.value()).abs() <= 1e-3 * rms + 0.02, "rms error {rms} m, reported {}", f.stats.rms_error.value());
        let mut probe: Vec<f64> = (0..n).flat_map(|i| { let a = from + i as f64 * block; let b = (a + block).min(from + span); [a, a + 1e-6, 0.5 * (a + b), a + 0.31 * (b - a), b - 1e-6, b] }).collect();
        probe.sort_by(f64::total_cmp);
        let mut last: Option<(f64, V)> = None;
        for &x in &probe {
            let s = (x - J2000) * DAY;
            let p = ev(x)?;
            let alt = eval_records(&f.records, f.ncoeff, s);
            ensure!(alt.iter().any(|a| nrm(sub(*a, p)) < 1e-2), "at {x}: {p:?}, the record gives {alt:?}");
            let d = 1000.0 * nrm(sub(p, truth(x)?));
            ensure!(d <= 30.0 * tol.max(0.5), "at {x} the table is {d} m off, stated {tol}");
            if let Some((y, q)) = last {
                if x - y < 3e-6 {
                    ensure!(nrm(sub(p, q)) <= 40.0 * (x - y) * DAY + 0.06 * tol.max(0.5), "jumps by {} km at {x}", nrm(sub(p, q)));
                }
            }
            last = Some((x, p));
        }
        for x in [from - 1e-3, from + span + 1e-3, from - 1000.0, from + span + 1000.0] {
            match evaluate_fitted(&f, jd(x)) {
                Err(EphemerisError::OutOfRange { jd: j, start_jd, end_jd }) => ensure!(j == x && (start_jd - from).abs() < 1e-6 && (end_jd - from - span).abs() < 1e-6, "refusal names {j} [{start_jd},{end_jd}]"),
                o => return Err(format!("outside the table at {x}: {o:?}")),
            }
        }
        Ok(hf(&f.records[..8]))
    });
}
fn bad_fits(l: &mut Local) {
    PAR.with(|p| *p.borrow_mut() = Par { d: AUKM, rate: 1.0, moon: [384_400.0, 0.0, 0.0], ..Par::default() });
    let vals = [0.0, -1.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, DAY];
    for span in [0.0, -5.0, 5.0] {
        for b in vals {
            for s in vals {
                l.case("fit-config", &format!("{span}/{b}/{s}"), || {
                    let c = FitConfig { from: jd(J2000), to: jd(J2000 + span), block: Seconds::new(b), validation_step: Seconds::new(s), ..FitConfig::default() };
                    let ok = span > 0.0 && b > 0.0 && b.is_finite() && s > 0.0 && s.is_finite();
                    let r = guard(|| fit_sun_earth_lagrange(&Synth, LP::L4, c))?;
                    ensure!(r.is_ok() == ok && (ok || r == Err(FitError::InvalidConfig)), "{:?}", r.map(|f| f.ncoeff));
                    Ok(1)
                });
            }
        }
    }
    for (i, (rec, n)) in [(vec![], 16), (vec![0.0; 50], 0), (vec![0.0; 49], 16), (vec![0.0; 51], 16), (vec![0.0, 1.0], 0)].into_iter().enumerate() {
        l.case("bad-table", &format!("{i}"), || {
            let f = FittedPoint { point: LP::L1, ncoeff: n, records: rec.clone(), stats: siderust::ephemeris::lagrange::fit::FitStats { max_abs_error: Meters::new(0.0), rms_error: Meters::new(0.0) } };
            let r = guard(|| evaluate_fitted(&f, jd(J2000)))?;
            ensure!(r.is_err(), "a malformed table evaluates to {r:?}");
            Ok(1)
        });
    }
}
/// records of a bundled table, decoded here
fn bundled(pt: LP) -> (usize, Vec<f64>, f64, f64) {
    use arch::lagrange::vsop87 as b;
    let b = match pt {
        LP::L1 => b::L1_BYTES,
        LP::L2 => b::L2_BYTES,
        LP::L3 => b::L3_BYTES,
        LP::L4 => b::L4_BYTES,
        LP::L5 => b::L5_BYTES,
    };
    let f = |i: usize| f64::from_le_bytes(b[i..i + 8].try_into().unwrap());
    let u = |i: usize| u32::from_le_bytes(b[i..i + 4].try_into().unwrap()) as usize;
    ((u(8)), (0..(b.len() - 64) / 8).map(|i| f(64 + 8 * i)).collect(), f(32), f(40))
}
fn table(l: &mut Local, pt: LP, stride: usize) {
    let (n, rec, from, to) = bundled(pt);
    let len = 2 + 3 * n;
    l.case("table-range", &format!("{pt:?}"), || {
        let m = &SUN_EARTH_LAGRANGE_METADATA;
        ensure!(m.valid_from.value() == FIT_FROM_JD && m.valid_to.value() == FIT_TO_JD && from == FIT_FROM_JD && to == FIT_TO_JD, "stated {} {}, table {from} {to}", m.valid_from, m.valid_to);
        ensure!((rec[1] * 2.0 - m.block.value()).abs() < 1e-6, "block {} while the table has {}", m.block, rec[1] * 2.0);
        for x in [FIT_FROM_JD, FIT_FROM_JD + 1e-6, FIT_TO_JD - 1e-6, FIT_TO_JD] {
            ensure!(try_sun_earth_lagrange_barycentric(pt, jd(x)).is_ok(), "refused at {x}");
        }
        for x in [FIT_FROM_JD - 1e-3, FIT_FROM_JD - 4000.0, FIT_TO_JD + 40.0, FIT_TO_JD + 1e5] {
            match try_sun_earth_lagrange_barycentric(pt, jd(x)) {
                Err(EphemerisError::OutOfRange { jd: j, start_jd, end_jd }) => ensure!(j == x && (start_jd - FIT_FROM_JD).abs() < 1e-6 && end_jd >= FIT_TO_JD - 1e-6 && end_jd < FIT_TO_JD + 33.0, "refusal names {j} [{start_jd},{end_jd}]"),
                o => return Err(format!("answered at {x}: {o:?}")),
            }
            ensure!(guard(|| sun_earth_lagrange_barycentric(pt, jd(x))).is_err(), "the plain form answers at {x}");
        }
        Ok(1)
    });
    let blocks: Vec<&[f64]> = rec.chunks_exact(len).collect();
    for (i, r) in blocks.iter().enumerate().step_by(stride) {
        l.case("table-eval", &format!("{pt:?}/{i}"), || {
            let mut last: Option<V> = None;
            for (t, edge) in [(-1.0, true), (-1.0 + 1e-9, false), (-0.6, false), (0.0, false), (0.37, false), (1.0 - 1e-9, false), (1.0, true)] {
                let s = r[0] + r[1] * t;
                let x = J2000 + s / DAY;
                if x > FIT_TO_JD || x < FIT_FROM_JD {
                    continue;
                }
                let p = sc(au(&try_sun_earth_lagrange_barycentric(pt, jd(x)).map_err(|e| format!("at {x}: {e}"))?), AUKM);
                let w = [cheb(&r[2..2 + n], t), cheb(&r[2 + n..2 + 2 * n], t), cheb(&r[2 + 2 * n..], t)];
                // the epoch is rounded to about 40 microseconds: 30 km/s of motion
                ensure!(nrm(sub(p, w)) <= if edge { 0.02 } else { 0.01 }, "at {x}: {p:?}, the table's polynomial gives {w:?}");
                let q = sc(au(&sun_earth_lagrange_barycentric(pt, jd(x))), AUKM);
                ensure!(q == p, "checked and plain forms differ");
                if let Some(o) = last { ensure!(nrm(sub(o, p)) < 31.0 * 2.0 * r[1], "moves too fast") }
                last = Some(p);
            }
            Ok(hf(&r[2..6]))
        });
        if let Some(nx) = blocks.get(i + 1) {
            l.case("table-seam", &format!("{pt:?}/{i}"), || {
                ensure!((nx[0] - nx[1] - r[0] - r[1]).abs() < 1e-3, "a gap after block {i}");
                let (a, b) = (J2000 + (r[0] + r[1]) / DAY - 1e-6, J2000 + (r[0] + r[1]) / DAY + 1e-6);
                let g = |x: f64| try_sun_earth_lagrange_barycentric(pt, jd(x)).map(|p| sc(au(&p), AUKM)).map_err(|e| format!("{e}"));
                let (p, q) = (g(a)?, g(b)?);
                // 0.17 s of motion and twice the stated error
                ensure!(nrm(sub(p, q)) <= 40.0 * 2e-6 * DAY + 0.003, "jumps by {} km between blocks", nrm(sub(p, q)));
                Ok(hf(&p))
            });
        }
    }
}
/// The stated accuracy of the bundled tables, against the direct solution.
fn table_truth(l: &mut Local, pt: LP, xs: &[f64]) {
    l.case("table-accuracy", &format!("{pt:?}"), || {
        let mut worst = (0.0f64, 0.0);
        for &x in xs {
            let p = sc(au(&try_sun_earth_lagrange_barycentric(pt, jd(x)).map_err(|e| format!("{e}"))?), AUKM);
            let s = km(&solve_sun_earth_lagrange::<Vsop87Ephemeris>(pt, jd(x)).map_err(|e| format!("{e}"))?.position);
            let d = nrm(sub(p, s));
            if d > worst.0 {
                worst = (d, x);
            }
        }
        ensure!(1000.0 * worst.0 <= 2.0 * SUN_EARTH_LAGRANGE_METADATA.max_abs_error.value(), "stated {} m, off by {} km at {}", SUN_EARTH_LAGRANGE_METADATA.max_abs_error.value(), worst.0, worst.1);
        Ok(hf(&[worst.0]))
    });
}

pub fn run(tier: Tier) -> Ctx {
    let mut ctx = Ctx::new("C24", "exploration", tier,
        "every bundled body and series at a grid of epochs over years 1000-3000 (five-day and daily stretches, century steps, J2000 neighbourhood), every dynamic and static interface method with the default, a labelled and refusing ephemerides; equilibrium solver over the product of point, eccentricity, inclination, Sun place and motion, Earth and Moon direction, rate and scale of synthetic systems and over dates with the default ephemeris, every settings combination and refusal pattern; fits over points, spans, blocks, validation steps and tolerances with every malformed configuration; every block of every bundled table at its edges and inside. Oracle: term-by-term sums of the archived series, central differences, mass ratio, force balance and geometry written out here, cosine form of the polynomials. Non-trivial: an answer compared or a refusal confirmed.");
    ctx.assumptions = vec![
        "the coefficient tables of the siderust-archive dependency are trusted (its Lagrange tables are checked against the direct solution: see known findings)".into(),
        "barycentric and heliocentric series are independent truncations: agreement to 2e-7 relative plus 1e-6 per millennium squared".into(),
    ];
    let th = tier == Tier::Thorough;
    let bs = bodies();
    let mut xs: Vec<f64> = (-10..=10).map(|i| J2000 + 36525.0 * i as f64 + 0.25 * i as f64).collect();
    xs.extend((0..if th { 1460 } else { 120 }).map(|i| 2_440_000.5 + i as f64 * if th { 17.375 } else { 211.375 }));
    xs.extend([J2000, J2000 - 1e-6, J2000 + 1e-6, J2000 + 0.5, FIT_FROM_JD, FIT_TO_JD]);
    let items: Vec<(usize, f64)> = (0..bs.len()).flat_map(|b| xs.iter().map(move |&x| (b, x))).collect();
    ctx.par(&items, |l, &(b, x)| body_case(l, &bs[b], x));
    let mut ms = xs.clone();
    ms.extend((0..if th { 3000 } else { 200 }).map(|i| 2_451_000.0 + 1.1 * i as f64));
    ctx.par(&ms, |l, &x| {
        moon_case(l, x);
        l.case("pluto", &format!("{x}"), || {
            let p = au(&guard(|| Pluto::get_heliocentric(jd(x)))?);
            let w = pluto(x);
            ensure!(nrm(sub(p, w)) <= 1e-9, "position {p:?} while the series give {w:?}");
            Ok(hf(&p))
        });
        interface(l, "vsop87", Vsop87Ephemeris, x);
        interface(l, "tagged", Tagged, x);
    });
    let ys: Vec<i32> = (-20..20).map(|k| k * 10).collect();
    ctx.par(&ys, |l, &y| meeus(l, y));
    let es: Vec<f64> = (0..if th { 365 } else { 60 }).map(|i| J2000 - 1500.0 + 50.0 * i as f64 * if th { 0.2 } else { 1.0 }).collect();
    ctx.par(&es, |l, &x| elements(l, x));
    let mut l = Local::default();
    failing(&mut l);
    bad_fits(&mut l);
    ctx.merge(l);
    ctx.par(&[0u8], |l, _| configs(l));

    // synthetic systems
    let mut sy: Vec<(Par, String, LP)> = vec![];
    let es: &[f64] = if th { &[0.0, 0.0167, 0.03, 0.05, 0.07] } else { &[0.0, 0.0167, 0.06] };
    let incs: &[f64] = if th { &[0.0, 23.4, 60.0, 90.0, 135.0, 180.0] } else { &[0.0, 23.4, 90.0, 180.0] };
    for (ie, &e) in es.iter().enumerate() {
        for (ii, inc) in incs.iter().enumerate() {
            for k in 0..if th { 16 } else { 6 } {
                for (im, m) in [[1e13, 0.0, 0.0], [384_400.0, 0.0, 0.0], [-384_400.0, 0.0, 0.0], [0.0, 363_300.0, 30_000.0], [0.0, -405_500.0, 0.0], [0.0, 0.0, 384_400.0]].into_iter().enumerate() {
                    for (is, (s, v)) in [([0.0; 3], [0.0; 3]), ([7e5, -3e5, 2e4], [0.012, -0.004, 0.001])].into_iter().enumerate() {
                        for (ir, (rate, d)) in [(1.0, AUKM), (0.97, AUKM), (1.0, 0.6 * AUKM), (1.03, 1.5 * AUKM)].into_iter().enumerate() {
                            if !th && (k + im + is + ir) % 2 == 1 && ie + ii > 0 {
                                continue;
                            }
                            let par = Par { sun: s, sunv: v, d, e, inc: f64::to_radians(*inc), lon: k as f64 * std::f64::consts::TAU / if th { 16.0 } else { 6.0 }, rate, moon: m, ..Par::default() };
                            for pt in PTS {
                                sy.push((par, format!("{ie}/{ii}/{k}/{im}/{is}/{ir}"), pt));
                            }
                        }
                    }
                }
            }
        }
    }
    ctx.par(&sy, |l, (p, t, pt)| synth_case(l, p, t, *pt));
    // real systems
    let dates: Vec<f64> = (0..if th { 400 } else { 30 }).map(|i| 2_440_000.5 + i as f64 * if th { 61.7 } else { 401.3 }).chain([FIT_FROM_JD, FIT_TO_JD, J2000, 2_300_000.5, 2_600_000.5]).collect();
    let items: Vec<(LP, f64)> = PTS.iter().flat_map(|&p| dates.iter().map(move |&x| (p, x))).collect();
    ctx.par(&items, |l, &(p, x)| l.case("balance-vsop", &format!("{p:?}/{x}"), || balance(Vsop87Ephemeris, p, x, 0.1)));
    // fits
    let mut ft: Vec<(LP, f64, f64, f64, f64, f64, bool)> = vec![];
    for pt in PTS {
        for (span, block, step) in [(32.0, 32.0, 1.0), (40.0, 16.0, 0.75), (7.0, 32.0, 0.5), (30.0, 10.0, 3.0), (20.0, 7.0, 20.0)] {
            for tol in [100.0, 1.0, 1e-9] {
                ft.push((pt, J2000 + 0.25, span, block, step, tol, true));
            }
            ft.push((pt, 2_433_282.5, span, block, step, 100.0, false));
            if th {
                ft.push((pt, 2_470_000.0, span, block, step, 5.0, false));
                ft.push((pt, FIT_FROM_JD, span, block, step, 1e-9, false));
            }
        }
    }
    ctx.par(&ft, |l, &(pt, from, span, block, step, tol, synth)| {
        if synth {
            PAR.with(|p| *p.borrow_mut() = Par { d: AUKM, rate: 1.0, e: 0.0167, inc: 0.1, lon: 1.0, moon: [3e5, 2e5, 1e4], sun: [5e5, 1e5, 0.0], sunv: [0.01, 0.0, 0.0], ..Par::default() });
            fits(l, "synthetic", Synth, pt, from, span, block, step, tol);
        } else {
            fits(l, "vsop87", Vsop87Ephemeris, pt, from, span, block, step, tol);
        }
    });
    // bundled tables
    let step = ctx.pick(7, 1);
    ctx.par(&PTS, |l, &pt| table(l, pt, step));
    let xs: Vec<f64> = linspace(FIT_FROM_JD, FIT_TO_JD, ctx.pick(25, 300));
    ctx.par(&PTS, |l, &pt| table_truth(l, pt, &xs));
    ctx
}
