//! C08: observer-side transforms. Every direction of a grid that contains the degenerate ones
//! (poles, zenith, meridians) x every site of a grid that contains the poles x epochs.
use crate::c06::{app, mul, tr, BigEop, M};
use crate::c07::{ecef, sites};
use crate::core::*;
use siderust::astro::aberration::*;
use siderust::astro::apparent::CorrectionPolicy;
use siderust::astro::eop::EopProvider;
use siderust::astro::nutation::{Iau2000B, Iau2006A, NutationModel};
use siderust::coordinates::cartesian::{Direction, Position, Velocity};
use siderust::coordinates::centers::*;
use siderust::coordinates::frames::*;
use siderust::coordinates::horizontal::*;
use siderust::coordinates::observation::{Apparent, Astrometric, ObserverState};
use siderust::coordinates::spherical;
use siderust::coordinates::transform::centers::TransformCenter;
use siderust::coordinates::transform::context::{AstroContext, DefaultEphemeris};
use siderust::coordinates::transform::ecliptic_of_date::{FromEclipticTrueOfDate, ToEclipticTrueOfDate};
use siderust::coordinates::transform::horizontal::{FromHorizontal, ToHorizontal, TopocentricEquatorialExt, TopocentricHorizontalExt};
use siderust::coordinates::transform::providers::frame_rotation_as;
use siderust::coordinates::transform::{DirectionAstroExt, Transform};
use siderust::event::horizontal::*;
use siderust::qtty::unit::{AstronomicalUnit, Day, Kilometer, Meter};
use siderust::qtty::{Degrees, Per, Quantity};
use siderust::time::JulianDate;
use std::f64::consts::{PI, TAU};

type V = [f64; 3];
/// Angles pass through arcsines: the library keeps about eight digits next to the poles.
const TOL: f64 = 1e-7;

fn unit(v: V) -> V {
    let n = (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt();
    v.map(|x| x / n)
}
fn gap(a: V, b: V) -> f64 {
    let d = ((a[0] - b[0]).powi(2) + (a[1] - b[1]).powi(2) + (a[2] - b[2]).powi(2)).sqrt();
    if d.is_nan() { f64::INFINITY } else { d }
}
fn sph(lon: f64, lat: f64) -> V {
    let (a, b) = (lon.to_radians(), lat.to_radians());
    [b.cos() * a.cos(), b.cos() * a.sin(), b.sin()]
}
fn dirs() -> Vec<V> {
    let mut v = vec![];
    for x in -1..=1 {
        for y in -1..=1 {
            for z in -1..=1 {
                if (x, y, z) != (0, 0, 0) {
                    v.push(unit([x as f64, y as f64, z as f64]));
                }
            }
        }
    }
    for (lon, lat) in [(10.0, 89.9999), (200.0, -89.9999), (359.9999999, 0.0), (1e-9, 1e-9), (123.4, 28.7624), (77.0, 51.0), (300.0, -70.3), (179.99999, 12.0)] {
        v.push(sph(lon, lat));
    }
    v
}
fn all_sites() -> Vec<(&'static str, Geodetic<ECEF>)> {
    let mut v = sites();
    let s = |lat: f64, lon: f64| Geodetic::<ECEF>::new(Degrees::new(lon), Degrees::new(lat), Quantity::<Meter>::new(0.0));
    v.push(("south pole", s(-90.0, 45.0)));
    v.push(("near pole", s(89.99999, -120.0)));
    v.push(("mid", s(45.0, 0.0)));
    v
}
fn rx(a: f64) -> M {
    let (s, c) = a.sin_cos();
    [[1.0, 0.0, 0.0], [0.0, c, s], [0.0, -s, c]]
}
/// Rows: North, East, Zenith, for a place whose local sidereal time is `lst` and latitude `lat`.
fn local(lst: f64, lat: f64) -> M {
    let ((sl, cl), (sp, cp)) = (lst.sin_cos(), lat.sin_cos());
    [[-sp * cl, -sp * sl, cp], [-sl, cl, 0.0], [cp * cl, cp * sl, sp]]
}
fn era(ut1: f64) -> f64 {
    let du = ut1 - 2451545.0;
    (TAU * (0.779_057_273_264_0 + 0.002_737_811_911_354_48 * du + (du - du.floor()))).rem_euclid(TAU)
}
fn gmst(ut1: f64, tt: f64) -> f64 {
    let t = (tt - 2451545.0) / 36525.0;
    era(ut1) + (0.014506 + t * (4612.156534 + t * (1.3915817 + t * (-0.00000044 + t * (-0.000029956))))) / 3600.0 * PI / 180.0
}
/// Equation of the equinoxes with its two largest complementary terms.
fn gast(ut1: f64, tt: f64, dpsi: f64, eps: f64) -> f64 {
    let t = (tt - 2451545.0) / 36525.0;
    let om = (125.04455501 - 1934.13626197 * t).to_radians();
    gmst(ut1, tt) + dpsi * eps.cos() + (0.00264096 * om.sin() + 0.00006352 * (2.0 * om).sin()) / 3600.0 * PI / 180.0
}
fn obliquity(tt: f64) -> f64 {
    let t = (tt - 2451545.0) / 36525.0;
    (84381.406 + t * (-46.836769 + t * (-0.0001831 + t * 0.00200340))) / 3600.0 * PI / 180.0
}
/// Difference allowed between two sidereal times that leave out different small terms.
const ST: f64 = 2e-9;

fn conventions() -> Vec<(HorizontalConvention, f64, f64)> {
    let mut v = vec![];
    for (o, off) in [(AzimuthOrigin::North, 0.0), (AzimuthOrigin::East, 90.0), (AzimuthOrigin::South, 180.0), (AzimuthOrigin::West, 270.0)] {
        v.push((HorizontalConvention { origin: o, sense: AzimuthSense::Clockwise }, off, 1.0));
        v.push((HorizontalConvention { origin: o, sense: AzimuthSense::CounterClockwise }, off, -1.0));
    }
    v
}
fn wrap(x: f64) -> f64 {
    let y = x.rem_euclid(360.0);
    y.min(360.0 - y)
}
fn azimuths(l: &mut Local) {
    let cs = conventions();
    let azs: Vec<f64> = (-40..=80).map(|k| k as f64 * 11.25).chain([-1e-13, 1e-13, 359.9999999999, 33.7, 720.0, -360.0, 1e6 + 0.25]).collect();
    for (a, oa, sa) in &cs {
        for (b, ob, sb) in &cs {
            for &z in &azs {
                l.case("convention", &format!("{a}/{b}/{z:e}"), || {
                    let r = convert_azimuth(Degrees::new(z), a, b).value();
                    ensure!((0.0..=360.0).contains(&r), "azimuth {r} is not normalised");
                    ensure!(wrap(oa + sa * z - (ob + sb * r)) < 1e-8, "bearing {} became {}", oa + sa * z, ob + sb * r);
                    ensure!(wrap(convert_azimuth(Degrees::new(r), b, a).value() - z) < 1e-8, "there and back gives another azimuth");
                    for (c, ..) in &cs {
                        let (two, one) = (convert_azimuth(Degrees::new(r), b, c).value(), convert_azimuth(Degrees::new(z), a, c).value());
                        ensure!(wrap(two - one) < 1e-8, "through {b} to {c}: {two}, directly {one}");
                    }
                    for alt in [-90.0, -12.5, 0.0, 37.0, 90.0] {
                        let d = spherical::Direction::<Horizontal>::new(Degrees::new(alt), Degrees::new(z));
                        let p = Topocentric::horizontal::<Kilometer, _>(sites()[0].1, Degrees::new(alt), Degrees::new(z), 12.0);
                        let e = convert_direction(&d, a, b);
                        let q = convert_position(&p, a, b);
                        let twice = direction_from_native(&direction_to_native(&d, a), b);
                        let ptwice = position_from_native(&position_to_native(&p, a), b);
                        for (n, az, al) in [("direction", e.az(), e.alt()), ("position", q.az(), q.alt()), ("direction through native", twice.az(), twice.alt()), ("position through native", ptwice.az(), ptwice.alt())] {
                            ensure!(wrap(az.value() - r) < 1e-8, "{n}: azimuth {} instead of {r}", az.value());
                            ensure!(al.value() == alt, "{n}: altitude {} instead of {alt}", al.value());
                        }
                        ensure!(q.distance.value() == 12.0 && *q.center_params() == sites()[0].1, "distance or site lost");
                    }
                    Ok(hf(&[r]) | 1)
                });
            }
        }
    }
    for &z in &azs {
        l.case("flip", &format!("{z:e}"), || {
            ensure!(wrap(flip_north_south(Degrees::new(z)).value() - z - 180.0) < 1e-8 && wrap(flip_sense(Degrees::new(z)).value() + z) < 1e-8, "wrong flip");
            Ok(hf(&[z]) | 1)
        });
    }
}

fn horizontal<E: EopProvider, N: NutationModel>(l: &mut Local, ctx: &str, jd: f64, c: &AstroContext<DefaultEphemeris, E>) {
    let t = JulianDate::new(jd);
    let m = c.with_model::<N>();
    let eop = c.eop_at_tt(t);
    let ut1 = siderust::astro::earth_rotation::jd_ut1_from_tt_eop(t, &eop);
    let ut1_default = siderust::astro::earth_rotation::jd_ut1_from_tt_eop(t, &AstroContext::<DefaultEphemeris, siderust::astro::eop::IersEop>::default().eop_at_tt(t));
    let ut1_plain = siderust::astro::earth_rotation::jd_ut1_from_tt(t);
    let nut = N::nutation(t);
    let nut6 = Iau2006A::nutation(t);
    let nut0 = Iau2000B::nutation(t);
    let val = |x: &JulianDate| x.raw().value();
    for (sn, site) in all_sites() {
        let (lat, lon) = (site.lat.value().to_radians(), site.lon.value().to_radians());
        for (di, v) in dirs().into_iter().chain(std::iter::once([f64::NAN; 3])).enumerate() {
            // the last direction is the zenith itself
            let zenith = v[0].is_nan();
            l.case("true of date", &format!("{ctx}/{jd}/{sn}/{di}"), || {
                let hor = local(gast(val(&ut1), jd, nut6.dpsi.value(), nut6.mean_obliquity.value()) + lon, lat);
                let v = if zenith { app(&tr(&hor), [0.0, 0.0, 1.0]) } else { v };
                let d = Direction::<EquatorialTrueOfDate>::new(v[0], v[1], v[2]);
                let h = ToHorizontal::to_horizontal(&d, &ut1, &t, &site);
                let got = [h.x(), h.y(), h.z()];
                let want = app(&hor, v);
                ensure!(gap(got, want) < TOL, "horizontal {got:?}, the local triad gives {want:?}");
                let b = h.to_equatorial(&ut1, &t, &site);
                ensure!(gap([b.x(), b.y(), b.z()], v) < TOL, "there and back gives {b:?} for {v:?}");
                let h2 = DirectionAstroExt::to_horizontal_precise(&d, &t, &ut1, &site);
                ensure!([h2.x(), h2.y(), h2.z()] == got, "to_horizontal_precise gives another direction");
                let h3 = DirectionAstroExt::to_horizontal(&d, &t, &site);
                let w3 = app(&local(gast(val(&ut1_default), jd, nut6.dpsi.value(), nut6.mean_obliquity.value()) + lon, lat), v);
                ensure!(gap([h3.x(), h3.y(), h3.z()], w3) < TOL, "the context-free route gives {h3:?} instead of {w3:?}");
                // positions
                let p = Position::<Topocentric, EquatorialTrueOfDate, Kilometer>::new_with_params(site, v[0] * 500.0, v[1] * 500.0, v[2] * 500.0);
                let q = p.to_horizontal_position(&ut1, &t);
                ensure!(gap([q.x().value() / 500.0, q.y().value() / 500.0, q.z().value() / 500.0], want) < TOL && *q.center_params() == site, "position: {q:?}");
                let r = q.to_equatorial_position(&ut1, &t);
                ensure!(gap([r.x().value() / 500.0, r.y().value() / 500.0, r.z().value() / 500.0], v) < TOL && *r.center_params() == site, "position there and back: {r:?}");
                // spherical positions
                let s = spherical::Position::<Topocentric, EquatorialTrueOfDate, Kilometer>::from_cartesian(&p);
                let hs = equatorial_to_horizontal_true_of_date_with_ctx(&s, site, t, &m);
                let ws = app(&local(gast(val(&ut1), jd, nut.dpsi.value(), nut.mean_obliquity.value()) + lon, lat), v);
                ensure!(gap(sph(hs.az().value(), hs.alt().value()), ws) < TOL, "spherical position: altitude {} azimuth {}, the local triad gives {ws:?}", hs.alt().value(), hs.az().value());
                ensure!((0.0..=360.0).contains(&hs.az().value()), "azimuth {} is not normalised", hs.az().value());
                ensure!((hs.distance.value() - 500.0).abs() < 1e-6 && *hs.center_params() == site, "distance or site lost");
                let alt = ws[2].clamp(-1.0, 1.0).asin().to_degrees();
                ensure!((hs.alt().value() - alt).abs() < 3e-6, "altitude {}, from hour angle, declination and latitude {alt}", hs.alt().value());
                for hs in [equatorial_to_horizontal(&s, site, t), equatorial_to_horizontal_true_of_date(&s, site, t)] {
                    ensure!(gap(sph(hs.az().value(), hs.alt().value()), w3) < TOL, "context-free spherical position {hs:?}");
                }
                Ok(hf(&got) | 1)
            });
            l.case("mean of date", &format!("{ctx}/{jd}/{sn}/{di}"), || {
                let hor = local(gmst(val(&ut1_plain), jd) + lon, lat);
                let v = if zenith { app(&tr(&hor), [0.0, 0.0, 1.0]) } else { v };
                let want = app(&hor, v);
                let p = Position::<Topocentric, EquatorialMeanOfDate, Kilometer>::new_with_params(site, v[0] * 500.0, v[1] * 500.0, v[2] * 500.0);
                let q: Position<Topocentric, Horizontal, Kilometer> = p.transform(t);
                ensure!(gap([q.x().value() / 500.0, q.y().value() / 500.0, q.z().value() / 500.0], want) < TOL && *q.center_params() == site, "{q:?}, the local triad gives {want:?}");
                let r: Position<Topocentric, EquatorialMeanOfDate, Kilometer> = q.transform(t);
                ensure!(gap([r.x().value() / 500.0, r.y().value() / 500.0, r.z().value() / 500.0], v) < TOL && *r.center_params() == site, "there and back: {r:?} for {v:?}");
                let s = spherical::Position::<Topocentric, EquatorialMeanOfDate, Kilometer>::from_cartesian(&p);
                let hs: spherical::Position<Topocentric, Horizontal, Kilometer> = s.transform(t);
                ensure!(gap(sph(hs.az().value(), hs.alt().value()), want) < TOL, "altitude {} azimuth {}, the local triad gives {want:?}", hs.alt().value(), hs.az().value());
                let b: spherical::Position<Topocentric, EquatorialMeanOfDate, Kilometer> = hs.transform(t);
                let b = b.to_cartesian();
                ensure!(gap([b.x().value() / 500.0, b.y().value() / 500.0, b.z().value() / 500.0], v) < TOL, "spherical there and back: {b:?}");
                Ok(hf(&want) | 1)
            });
            l.case("star", &format!("{ctx}/{jd}/{sn}/{di}"), || {
                let hor = local(gast(val(&ut1_default), jd, nut0.dpsi.value(), nut0.mean_obliquity.value()) + lon, lat);
                let v = if zenith { app(&tr(&hor), [0.0, 0.0, 1.0]) } else { v };
                let (ra, dec) = (v[1].atan2(v[0]).to_degrees(), v[2].clamp(-1.0, 1.0).asin().to_degrees());
                let g = star_horizontal_with_policy(Degrees::new(ra), Degrees::new(dec), &site, t, CorrectionPolicy::GEOMETRIC);
                ensure!(gap(sph(g.az().value(), g.alt().value()), app(&hor, v)) < TOL, "geometric: altitude {} azimuth {}", g.alt().value(), g.az().value());
                let a = star_horizontal(Degrees::new(ra), Degrees::new(dec), &site, t);
                let rot = *frame_rotation_as::<ICRS, EquatorialTrueOfDate, Iau2000B, DefaultEphemeris, siderust::astro::eop::NullEop>(t, &AstroContext::with_types()).as_matrix();
                let w = app(&hor, app(&rot, v));
                ensure!(gap(sph(a.az().value(), a.alt().value()), w) < 3e-7, "apparent: altitude {} azimuth {}, the frame chain gives {w:?}", a.alt().value(), a.az().value());
                Ok(hf(&w) | 1)
            });
        }
        for (vi, v) in [[300_000.0, -120_000.0, 90_000.0], [-9000.0, 3000.0, 1.0], [0.1, 0.2, 149_597_870.0]].into_iter().enumerate() {
            l.case("apparent place", &format!("{ctx}/{jd}/{sn}/{vi}"), || {
                let p = Position::<Geocentric, EquatorialMeanJ2000, Kilometer>::new(v[0], v[1], v[2]);
                let a = geocentric_j2000_to_apparent_topocentric_with_ctx(&p, site, t, &m);
                let o: Position<Topocentric, EquatorialMeanJ2000, Kilometer> = p.to_center_with(site, t, &m);
                let rot = *frame_rotation_as::<EquatorialMeanJ2000, EquatorialTrueOfDate, N, DefaultEphemeris, E>(t, c).as_matrix();
                let w = app(&rot, [o.x().value(), o.y().value(), o.z().value()]);
                let g = a.to_cartesian();
                let r = (w[0] * w[0] + w[1] * w[1] + w[2] * w[2]).sqrt();
                ensure!(gap(unit([g.x().value(), g.y().value(), g.z().value()]), unit(w)) < 3e-7 && ((a.distance.value() - r) / r).abs() < 1e-9, "{g:?} instead of {w:?}");
                ensure!(*a.center_params() == site, "site lost");
                let e = ecef(&site);
                let far = (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt();
                let se = (e[0] * e[0] + e[1] * e[1] + e[2] * e[2]).sqrt() / 1000.0;
                ensure!((r - far).abs() <= se + 1e-6, "parallax is larger than the Earth");
                Ok(hf(&w) | 1)
            });
        }
    }
    l.case("sidereal", &format!("{ctx}/{jd}"), || {
        let g = siderust::astro::sidereal::gast_iau2006(ut1, t, nut6.dpsi, nut6.mean_obliquity).value();
        let w = gast(val(&ut1), jd, nut6.dpsi.value(), nut6.mean_obliquity.value());
        let d = (g - w + PI).rem_euclid(TAU) - PI;
        ensure!(d.abs() < ST, "apparent sidereal time {g}, expected {w}");
        let g = siderust::astro::sidereal::gmst_iau2006(ut1, t).value();
        let d = (g - gmst(val(&ut1), jd) + PI).rem_euclid(TAU) - PI;
        ensure!(d.abs() < 3e-10, "mean sidereal time {g}, expected {}", gmst(val(&ut1), jd));
        Ok(hf(&[g]) | 1)
    });
}

/// Targets exactly overhead and underfoot, where a sine computed from products can exceed one.
fn zenith(l: &mut Local, jd: f64) {
    let t = JulianDate::new(jd);
    let c: AstroContext = AstroContext::default();
    let ut1 = siderust::astro::earth_rotation::jd_ut1_from_tt_eop(t, &c.eop_at_tt(t));
    let nut = Iau2006A::nutation(t);
    let lst = siderust::astro::sidereal::gast_iau2006(ut1, t, nut.dpsi, nut.mean_obliquity).value().to_degrees();
    let mst = siderust::astro::earth_rotation::gmst_from_tt(t).value().to_degrees();
    for k in -360..=360 {
        let lat = k as f64 * 0.25;
        let site = Geodetic::<ECEF>::new(Degrees::new(0.0), Degrees::new(lat), Quantity::<Meter>::new(0.0));
        l.case("overhead", &format!("{jd}/{lat}"), || {
            for (ra, dec, want) in [(lst, lat, 90.0), (lst + 180.0, -lat, -90.0)] {
                let p = spherical::Position::<Topocentric, EquatorialTrueOfDate, Kilometer>::new_with_params(site, Degrees::new(dec), Degrees::new(ra), Quantity::new(7.0));
                let h = equatorial_to_horizontal_true_of_date_with_ctx(&p, site, t, &c);
                ensure!((h.alt().value() - want).abs() < 1e-4, "altitude {} of a target at {want}", h.alt().value());
                let h = star_horizontal_with_policy(Degrees::new(ra), Degrees::new(dec), &site, t, CorrectionPolicy::GEOMETRIC);
                ensure!((h.alt().value() - want).abs() < 1e-4, "altitude {} of a star at {want}", h.alt().value());
            }
            for (ra, dec, want) in [(mst, lat, 90.0), (mst + 180.0, -lat, -90.0)] {
                let p = spherical::Position::<Topocentric, EquatorialMeanOfDate, Kilometer>::new_with_params(site, Degrees::new(dec), Degrees::new(ra), Quantity::new(7.0));
                let h: spherical::Position<Topocentric, Horizontal, Kilometer> = p.transform(t);
                ensure!((h.alt().value() - want).abs() < 1e-4, "altitude {} of a mean-of-date target at {want}", h.alt().value());
            }
            Ok(1)
        });
    }
}

fn ecliptic(l: &mut Local, jd: f64) {
    let t = JulianDate::new(jd);
    let c: AstroContext = AstroContext::default();
    let eps = obliquity(jd);
    let icrs = *frame_rotation_as::<ICRS, EquatorialMeanOfDate, Iau2006A, DefaultEphemeris, siderust::astro::eop::IersEop>(t, &c).as_matrix();
    let gcrs = *frame_rotation_as::<GCRS, ICRS, Iau2006A, DefaultEphemeris, siderust::astro::eop::IersEop>(t, &c).as_matrix();
    let _ = gcrs;
    for (di, v) in dirs().into_iter().enumerate() {
        l.case("ecliptic of date", &format!("{jd}/{di}"), || {
            let a = |d: &Direction<EclipticTrueOfDate>| [d.x(), d.y(), d.z()];
            let e = ToEclipticTrueOfDate::to_ecliptic_of_date(&Direction::<EquatorialMeanOfDate>::new(v[0], v[1], v[2]), &t);
            let want = app(&rx(eps), v);
            ensure!(gap(a(&e), want) < TOL, "from the mean equator {e:?}, tilting by the obliquity gives {want:?}");
            let b = e.to_equatorial_mean_of_date(&t);
            ensure!(gap([b.x(), b.y(), b.z()], v) < TOL, "there and back {b:?}");
            let want = app(&mul(&rx(eps), &icrs), v);
            for (n, e) in [
                ("ICRS", ToEclipticTrueOfDate::to_ecliptic_of_date(&Direction::<ICRS>::new(v[0], v[1], v[2]), &t)),
                ("GCRS", ToEclipticTrueOfDate::to_ecliptic_of_date(&Direction::<GCRS>::new(v[0], v[1], v[2]), &t)),
                ("extension", DirectionAstroExt::to_ecliptic_of_date(&Direction::<ICRS>::new(v[0], v[1], v[2]), &t)),
            ] {
                ensure!(gap(a(&e), want) < 2e-7, "from {n} {e:?}, precession then obliquity gives {want:?}");
            }
            let i = ToEclipticTrueOfDate::to_ecliptic_of_date(&Direction::<ICRS>::new(v[0], v[1], v[2]), &t).to_icrs(&t);
            ensure!(gap([i.x(), i.y(), i.z()], v) < TOL, "ICRS there and back {i:?}");
            Ok(hf(&want) | 1)
        });
    }
}

fn lorentz(u: V, b: V) -> V {
    let b2 = b[0] * b[0] + b[1] * b[1] + b[2] * b[2];
    if b2 == 0.0 {
        return u;
    }
    let g = 1.0 / (1.0 - b2).sqrt();
    let bu = b[0] * u[0] + b[1] * u[1] + b[2] * u[2];
    unit([0, 1, 2].map(|k| (u[k] / g + b[k] * (1.0 + g / (g + 1.0) * bu)) / (1.0 + bu)))
}
fn aberration(l: &mut Local) {
    type AUD = Per<AstronomicalUnit, Day>;
    const C: f64 = 173.144_632_674_240_33;
    for (si, beta) in [0.0, 1e-6, 1e-4, 1e-3, 0.1, 0.9].into_iter().enumerate() {
        for (wi, w) in dirs().into_iter().enumerate().step_by(3) {
            let vel = Velocity::<EquatorialMeanJ2000, AUD>::new(w[0] * beta * C, w[1] * beta * C, w[2] * beta * C);
            let obs = ObserverState::from_velocity(vel, JulianDate::new(2451545.0));
            for (di, v) in dirs().into_iter().chain([w, w.map(|x| -x)]).enumerate() {
                l.case("aberration", &format!("{si}/{wi}/{di}"), || {
                    let d = Direction::<EquatorialMeanJ2000>::new(v[0], v[1], v[2]);
                    let a = |d: &Direction<EquatorialMeanJ2000>| [d.x(), d.y(), d.z()];
                    let want = lorentz(v, w.map(|x| x * beta));
                    let p = apply_aberration_to_direction_with_velocity(d, &vel);
                    ensure!(gap(a(&p), want) < 1e-12, "{p:?}, special relativity gives {want:?}");
                    ensure!(gap(a(&remove_aberration_from_direction_with_velocity(p, &vel)), v) < 1e-12, "there and back differs");
                    let q = Astrometric::new(d).to_apparent(&obs);
                    ensure!(gap(a(q.direction()), want) < 1e-12, "typed route {:?}", q.direction());
                    ensure!(gap(a(q.to_astrometric(&obs).direction()), v) < 1e-12, "typed there and back differs");
                    // the same through another frame and spherical coordinates
                    macro_rules! frame { ($($F:ident),*) => { $( {
                        let rot = *frame_rotation_as::<EquatorialMeanJ2000, $F, Iau2006A, DefaultEphemeris, siderust::astro::eop::NullEop>(JulianDate::new(2451545.0), &AstroContext::with_types()).as_matrix();
                        let (v2, w2) = (app(&rot, v), app(&rot, want));
                        let d2 = Direction::<$F>::new(v2[0], v2[1], v2[2]);
                        let q = Astrometric::new(d2).to_apparent(&obs);
                        ensure!(gap([q.direction().x(), q.direction().y(), q.direction().z()], w2) < 1e-12, "{}: {q:?} instead of {w2:?}", stringify!($F));
                        let b = q.to_astrometric(&obs).into_inner();
                        ensure!(gap([b.x(), b.y(), b.z()], v2) < 1e-12, "{}: there and back", stringify!($F));
                        let s = Astrometric::new(spherical::Direction::<$F>::from_cartesian(&d2)).to_apparent(&obs);
                        let c = s.direction().to_cartesian();
                        ensure!(gap([c.x(), c.y(), c.z()], w2) < TOL, "{} spherical: {c:?} instead of {w2:?}", stringify!($F));
                        let b = Apparent::new(*s.direction()).to_astrometric(&obs).into_inner().to_cartesian();
                        // undoing a large boost magnifies the rounding
                        ensure!(gap([b.x(), b.y(), b.z()], v2) < TOL * (1.0 + beta) / (1.0 - beta), "{} spherical there and back", stringify!($F));
                    } )* } }
                    frame!(EquatorialMeanJ2000, EclipticMeanJ2000, ICRS);
                    Ok(hf(&want) | 1)
                });
            }
        }
    }
    for jd in [2415100.5, 2451545.0, 2451635.25, 2460310.75] {
        let t = JulianDate::new(jd);
        let obs = ObserverState::geocentric(t);
        let b = [obs.velocity().x().value() / C, obs.velocity().y().value() / C, obs.velocity().z().value() / C];
        for (di, v) in dirs().into_iter().enumerate() {
            l.case("annual", &format!("{jd}/{di}"), || {
                let want = lorentz(v, b);
                let d = Direction::<EquatorialMeanJ2000>::new(v[0], v[1], v[2]);
                let p = apply_aberration_to_direction(d, t);
                ensure!(gap([p.x(), p.y(), p.z()], want) < 1e-12, "{p:?} instead of {want:?}");
                ensure!(gap(v, want) < 1.02e-4, "moved by {}", gap(v, want));
                let r = remove_aberration_from_direction(p, t);
                ensure!(gap([r.x(), r.y(), r.z()], v) < 1e-12, "there and back");
                let q = Position::<Geocentric, EquatorialMeanJ2000, AstronomicalUnit>::new(v[0] * 3.0, v[1] * 3.0, v[2] * 3.0);
                let q = apply_aberration(q, t);
                ensure!(gap([q.x().value() / 3.0, q.y().value() / 3.0, q.z().value() / 3.0], want) < 1e-12, "position {q:?}");
                let q = remove_aberration(q, t);
                ensure!(gap([q.x().value() / 3.0, q.y().value() / 3.0, q.z().value() / 3.0], v) < 1e-12, "position there and back {q:?}");
                Ok(hf(&want) | 1)
            });
        }
        l.case("annual", &format!("{jd}/origin"), || {
            let q = apply_aberration(Position::<Geocentric, EquatorialMeanJ2000, AstronomicalUnit>::new(0.0, 0.0, 0.0), t);
            ensure!(q.x().value() == 0.0 && q.y().value() == 0.0 && q.z().value() == 0.0, "the origin moved");
            Ok(1)
        });
    }
}

fn cart_sph(l: &mut Local) {
    for (di, v) in dirs().into_iter().enumerate() {
        macro_rules! frame { ($($F:ident),*) => { $(
            l.case("spherical", &format!("{}/{di}", stringify!($F)), || {
                let d = Direction::<$F>::new(v[0], v[1], v[2]);
                let s = spherical::Direction::<$F>::from_cartesian(&d);
                let b = s.to_cartesian();
                ensure!(gap([b.x(), b.y(), b.z()], v) < TOL, "direction there and back {b:?}");
                ensure!(gap(sph(s.azimuth.value(), s.polar.value()), v) < TOL, "angles {} {}", s.azimuth.value(), s.polar.value());
                ensure!((-90.0..=90.0).contains(&s.polar.value()) && (0.0..=360.0).contains(&s.azimuth.value()), "angles out of range");
                for r in [1e-6, 1.0, 1e9] {
                    let p = Position::<Geocentric, $F, Kilometer>::new(v[0] * r, v[1] * r, v[2] * r);
                    let s = spherical::Position::<Geocentric, $F, Kilometer>::from_cartesian(&p);
                    let b = s.to_cartesian();
                    ensure!(gap([b.x().value() / r, b.y().value() / r, b.z().value() / r], v) < TOL && ((s.distance.value() - r) / r).abs() < 1e-12, "position there and back {b:?}");
                }
                Ok(hf(&v) | 1)
            });
        )* } }
        frame!(ICRS, EquatorialMeanJ2000, EclipticMeanJ2000, EquatorialTrueOfDate, EquatorialMeanOfDate, Horizontal, Galactic, ITRF);
    }
}

pub fn run(tier: Tier) -> Ctx {
    let mut ctx = Ctx::new("C08", "exploration", tier, "every direction (35, with poles and zenith) x site (9, with both poles) x epoch x context; all triples of the eight azimuth conventions");
    ctx.assumptions = vec!["epochs 1900-2031; angles compared to 0.02 arcsec (arcsines in the public spherical types)".into()];
    let epochs: Vec<f64> = ctx.pick({ let mut v = vec![2451545.0]; v.extend(linspace(2415100.3, 2462800.1, 9)); v }, linspace(2415100.3, 2462800.1, 120));
    let items: Vec<(f64, u8)> = epochs.iter().flat_map(|&j| (0..3).map(move |k| (j, k))).collect();
    ctx.par(&items, |l, &(jd, k)| match k {
        0 => horizontal::<_, Iau2006A>(l, "iers/2006A", jd, &AstroContext::<DefaultEphemeris, siderust::astro::eop::IersEop>::default()),
        1 => horizontal::<_, Iau2000B>(l, "big/2000B", jd, &AstroContext::<DefaultEphemeris, BigEop>::default()),
        _ => {
            ecliptic(l, jd);
            zenith(l, jd);
        }
    });
    let parts = [0, 1, 2];
    ctx.par(&parts, |l, &k| match k { 0 => azimuths(l), 1 => aberration(l), _ => cart_sph(l) });
    ctx
}
