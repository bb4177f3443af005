//! C31: the C interface. Every entry point, over every enum value, null-pointer pattern and handle
//! history, against the Rust functions it stands for.
use crate::core::*;
use crate::spice::{cheb, coef, daf, PLAIN};
use qtty::angular::{Degrees, Radians};
use qtty::length::{AstronomicalUnits, Meters};
use qtty::unit::{AstronomicalUnit, Kilometer};
use siderust::coordinates::centers::{Barycentric, Geocentric, Geodetic};
use siderust::coordinates::frames::*;
use siderust::coordinates::transform::{DirectionAstroExt, PositionAstroExt, SphericalDirectionAstroExt};
use siderust::coordinates::{cartesian, spherical};
use siderust::event::azimuth as az;
use siderust::event::lunar::phase as ph;
use siderust::ephemeris::{DynEphemeris, Ephemeris, RuntimeEphemeris, Vsop87Ephemeris};
use siderust::time::{Interval, JulianDate, ModifiedJulianDate};
use siderust::{AltitudeProvider, AzimuthProvider};
use siderust_ffi::sampling::*;
use siderust_ffi::*;
use std::ffi::CString;
use std::ptr::{null, null_mut};

type St = SiderustStatus;
const OK: St = St::Ok;
const FRAMES: [SiderustFrame; 15] = [
    SiderustFrame::ICRS,
    SiderustFrame::EclipticMeanJ2000,
    SiderustFrame::EquatorialMeanJ2000,
    SiderustFrame::EquatorialMeanOfDate,
    SiderustFrame::EquatorialTrueOfDate,
    SiderustFrame::ICRF,
    SiderustFrame::Horizontal,
    SiderustFrame::ECEF,
    SiderustFrame::Galactic,
    SiderustFrame::GCRS,
    SiderustFrame::EclipticOfDate,
    SiderustFrame::EclipticTrueOfDate,
    SiderustFrame::CIRS,
    SiderustFrame::TIRS,
    SiderustFrame::ITRF,
];
const CENTERS: [SiderustCenter; 5] = [SiderustCenter::Barycentric, SiderustCenter::Heliocentric, SiderustCenter::Geocentric, SiderustCenter::Topocentric, SiderustCenter::Bodycentric];
const UNITS: [(SiderustLengthUnit, f64); 5] = [
    // metres in one unit
    (SiderustLengthUnit::AU, 149_597_870_700.0),
    (SiderustLengthUnit::Km, 1000.0),
    (SiderustLengthUnit::LightYear, 9_460_730_472_580_800.0),
    (SiderustLengthUnit::Parsec, 3.085_677_581_491_367e16),
    (SiderustLengthUnit::Meter, 1.0),
];
const MODELS: [SiderustEarthOrientationModel; 4] = [
    SiderustEarthOrientationModel::Iau2000A,
    SiderustEarthOrientationModel::Iau2000B,
    SiderustEarthOrientationModel::Iau2006,
    SiderustEarthOrientationModel::Iau2006A,
];
const BODIES: [SiderustBody; 9] = [
    SiderustBody::Sun,
    SiderustBody::Moon,
    SiderustBody::Mercury,
    SiderustBody::Venus,
    SiderustBody::Mars,
    SiderustBody::Jupiter,
    SiderustBody::Saturn,
    SiderustBody::Uranus,
    SiderustBody::Neptune,
];
const STARS: [&str; 10] = ["VEGA", "SIRIUS", "POLARIS", "CANOPUS", "ARCTURUS", "RIGEL", "BETELGEUSE", "PROCYON", "ALDEBARAN", "ALTAIR"];

fn jd(x: f64) -> JulianDate {
    JulianDate::new(x)
}
fn mjd(x: f64) -> ModifiedJulianDate {
    siderust::time::try_mjd_f64(x).unwrap()
}
fn same(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}
fn dir(polar: f64, azim: f64, frame: SiderustFrame) -> SiderustSphericalDir {
    SiderustSphericalDir { polar_deg: polar, azimuth_deg: azim, frame }
}
fn zero_dir() -> SiderustSphericalDir {
    dir(0.0, 0.0, SiderustFrame::ICRS)
}
fn pos(v: [f64; 3], frame: SiderustFrame, center: SiderustCenter, length_unit: SiderustLengthUnit) -> SiderustCartesianPos {
    SiderustCartesianPos { x: v[0], y: v[1], z: v[2], frame, center, length_unit }
}
fn subject_body(b: SiderustBody) -> SiderustSubject {
    SiderustSubject { kind: SiderustSubjectKind::Body, body: b, star_handle: null(), icrs_dir: zero_dir(), generic_target_handle: null() }
}
fn subject_star(s: *const SiderustStar) -> SiderustSubject {
    SiderustSubject { kind: SiderustSubjectKind::Star, star_handle: s, ..subject_body(SiderustBody::Sun) }
}
fn subject_icrs(d: SiderustSphericalDir) -> SiderustSubject {
    SiderustSubject { kind: SiderustSubjectKind::Icrs, icrs_dir: d, ..subject_body(SiderustBody::Sun) }
}
fn subject_target(t: *const SiderustGenericTarget) -> SiderustSubject {
    SiderustSubject { kind: SiderustSubjectKind::GenericTarget, generic_target_handle: t, ..subject_body(SiderustBody::Sun) }
}
fn site(lon: f64, lat: f64, h: f64) -> SiderustGeodetict {
    SiderustGeodetict { lon_deg: lon, lat_deg: lat, height_m: h }
}
fn rsite(s: &SiderustGeodetict) -> Geodetic<ECEF> {
    Geodetic::<ECEF>::new(Degrees::new(s.lon_deg), Degrees::new(s.lat_deg), Meters::new(s.height_m))
}
fn win(a: f64, b: f64) -> TempochPeriodMjd {
    TempochPeriodMjd { start_mjd: a, end_mjd: b }
}
fn rwin(w: &TempochPeriodMjd) -> Interval<ModifiedJulianDate> {
    Interval::new(mjd(w.start_mjd), mjd(w.end_mjd))
}
fn opts(tol: f64) -> SiderustSearchOpts {
    SiderustSearchOpts { time_tolerance_days: tol }
}
fn ropts(tol: f64) -> siderust::SearchOpts {
    siderust::SearchOpts { time_tolerance: qtty::time::Days::new(tol) }
}

fn size_of_pointee<T>(_: *mut T) -> usize {
    size_of::<T>()
}
/// Call a function that hands out an array, copy the elements and free the array again.
fn list<T: Copy>(f: impl FnOnce(*mut *mut T, *mut usize) -> St, free: unsafe extern "C" fn(*mut T, usize)) -> Result<Vec<T>, String> {
    let (mut p, mut n) = (null_mut(), usize::MAX);
    let s = f(&mut p, &mut n);
    if s != OK {
        return Err(format!("refused with {s:?}"));
    }
    ensure!(n < 1_000_000, "count {n}");
    ensure!(n == 0 || !p.is_null(), "{n} elements at a null pointer");
    let v = (0..n).map(|i| unsafe { *p.add(i) }).collect();
    let before = live_bytes();
    unsafe { free(p, n) };
    ensure!(before - live_bytes() == (n * size_of::<T>()) as isize, "freeing {n} elements of {} bytes returned {} bytes", size_of::<T>(), before - live_bytes());
    Ok(v)
}
fn periods(f: impl FnOnce(*mut *mut TempochPeriodMjd, *mut usize) -> St) -> Result<Vec<(f64, f64)>, String> {
    Ok(list(f, siderust_periods_free)?.iter().map(|p| (p.start_mjd, p.end_mjd)).collect())
}
fn rperiods(v: Vec<Interval<ModifiedJulianDate>>) -> Vec<(f64, f64)> {
    v.iter().map(|p| (p.start.raw().value(), p.end.raw().value())).collect()
}

// ------------------------------------------------------------------ subjects
#[derive(Clone, Debug)]
enum Subj {
    Body(usize),
    Star(usize),
    Made(f64, f64),
    Icrs(f64, f64),
    Target(usize, usize, f64, f64),
}
/// The direction a target of the given frame and coordinates stands for.
fn icrs_of(frame: SiderustFrame, azim: f64, pol: f64, epoch: f64) -> Option<spherical::direction::ICRS> {
    let (a, p, j) = (Degrees::new(azim), Degrees::new(pol), jd(epoch));
    macro_rules! d {
        ($f:ty) => {
            Some(spherical::Direction::<$f>::new_unchecked(p, a).to_frame::<ICRS>(&j))
        };
    }
    match frame {
        SiderustFrame::ICRS => Some(spherical::Direction::<ICRS>::new_unchecked(p, a)),
        SiderustFrame::ICRF => d!(ICRF),
        SiderustFrame::EclipticMeanJ2000 => d!(EclipticMeanJ2000),
        SiderustFrame::EquatorialMeanJ2000 => d!(EquatorialMeanJ2000),
        SiderustFrame::EquatorialMeanOfDate => d!(EquatorialMeanOfDate),
        SiderustFrame::EquatorialTrueOfDate => d!(EquatorialTrueOfDate),
        _ => None,
    }
}
fn target_data(kind: usize, frame: SiderustFrame, azim: f64, pol: f64, epoch: f64, pm: Option<SiderustProperMotion>) -> SiderustGenericTargetData {
    let (ca, sa) = (azim.to_radians().cos(), azim.to_radians().sin());
    let (cp, sp) = (pol.to_radians().cos(), pol.to_radians().sin());
    let coord = match kind {
        0 => SiderustTargetCoordUnion { spherical_dir: dir(pol, azim, frame) },
        1 => SiderustTargetCoordUnion { spherical_pos: SiderustSphericalPos { lon_deg: azim, lat_deg: pol, distance: 12.5, frame, center: SiderustCenter::Barycentric, length_unit: SiderustLengthUnit::Parsec } },
        _ => SiderustTargetCoordUnion { cartesian_pos: pos([3.0 * ca * cp, 3.0 * sa * cp, 3.0 * sp], frame, SiderustCenter::Barycentric, SiderustLengthUnit::AU) },
    };
    SiderustGenericTargetData {
        kind: [SiderustTargetCoordKind::SphericalDir, SiderustTargetCoordKind::SphericalPos, SiderustTargetCoordKind::CartesianPos][kind],
        _pad1: [0; 4],
        coord,
        epoch_jd: epoch,
        has_proper_motion: pm.is_some(),
        _pad2: [0; 7],
        proper_motion: pm.unwrap_or(SiderustProperMotion { pm_ra_deg_yr: 0.0, pm_dec_deg_yr: 0.0, ra_convention: SiderustRaConvention::MuAlpha }),
    }
}
fn star_ref(i: usize) -> &'static siderust::bodies::Star<'static> {
    use siderust::bodies as b;
    static ALL: [b::Star<'static>; 10] = [b::VEGA, b::SIRIUS, b::POLARIS, b::CANOPUS, b::ARCTURUS, b::RIGEL, b::BETELGEUSE, b::PROCYON, b::ALDEBARAN, b::ALTAIR];
    &ALL[i]
}
/// Every tracking function of one subject against the Rust functions on the object it stands for.
/// `tol` in degrees for the angles; event times then agree to the same angle's time.
fn track<T: AltitudeProvider + AzimuthProvider>(p: &T, s: SiderustSubject, o: &SiderustGeodetict, t0: f64, days: f64, exact: bool) -> Outcome {
    let ro = rsite(o);
    let tol = 1e-6;
    let eq = |a: f64, b: f64, what: &str| -> Result<(), String> {
        let ok = if exact { same(a, b) } else { close(a, b, 2e-6) };
        ensure!(ok, "{what}: C gives {a}, Rust gives {b}");
        Ok(())
    };
    let eqp = |a: Result<Vec<(f64, f64)>, String>, b: Vec<(f64, f64)>, what: &str| -> Result<u64, String> {
        let a = a.map_err(|e| format!("{what}: {e}"))?;
        ensure!(a.len() == b.len(), "{what}: C gives {a:?}, Rust gives {b:?}");
        for (x, y) in a.iter().zip(&b) {
            eq(x.0, y.0, what)?;
            eq(x.1, y.1, what)?;
        }
        Ok(a.len() as u64)
    };
    let mut h = 1u64;
    for k in 0..4 {
        let t = t0 + days * k as f64 / 4.0;
        let mut v = f64::NAN;
        let st = siderust_altitude_at(s, *o, t, &mut v);
        ensure!(st == OK, "altitude_at refused: {st:?}");
        eq(v, p.altitude_at(&ro, mjd(t)).value(), "altitude")?;
        let st = siderust_azimuth_at(s, *o, t, &mut v);
        ensure!(st == OK, "azimuth_at refused: {st:?}");
        eq(v, p.azimuth_at(&ro, mjd(t)).value(), "azimuth")?;
        h ^= v.to_bits();
    }
    let (w, op) = (win(t0, t0 + days), opts(tol));
    let (rw, rop) = (rwin(&w), ropts(tol));
    for thr in [-18.0, -0.833, 20.0] {
        let d = Degrees::new(thr);
        h ^= eqp(periods(|a, n| siderust_above_threshold(s, *o, w, thr, op, a, n)), rperiods(siderust::above_threshold(p, &ro, rw, d, rop)), "above")?;
        eqp(periods(|a, n| siderust_below_threshold(s, *o, w, thr, op, a, n)), rperiods(siderust::below_threshold(p, &ro, rw, d, rop)), "below")?;
        let c = list(|a, n| siderust_crossings(s, *o, w, thr, op, a, n), siderust_crossings_free)?;
        let r = siderust::crossings(p, &ro, rw, d, rop);
        ensure!(c.len() == r.len(), "crossings: {} against {}", c.len(), r.len());
        for (x, y) in c.iter().zip(&r) {
            eq(x.mjd, y.mjd.raw().value(), "crossing")?;
            ensure!((x.direction == SiderustCrossingDirection::Rising) == matches!(y.direction, siderust::CrossingDirection::Rising), "direction of the crossing at {}", x.mjd);
        }
        let (lo, hi) = (thr, thr + 25.0);
        eqp(periods(|a, n| siderust_altitude_ranges(s, *o, w, lo, hi, op, a, n)), rperiods(siderust::altitude_ranges(p, &ro, rw, Degrees::new(lo), Degrees::new(hi), rop)), "altitude range")?;
    }
    let c = list(|a, n| siderust_culminations(s, *o, w, op, a, n), siderust_culminations_free)?;
    let r = siderust::culminations(p, &ro, rw, rop);
    ensure!(c.len() == r.len(), "culminations: {} against {}", c.len(), r.len());
    for (x, y) in c.iter().zip(&r) {
        // a flat extremum is located to the square root of the altitude difference
        ensure!(close(x.mjd, y.mjd.raw().value(), if exact { 0.0 } else { 1e-4 }), "culmination at {} against {}", x.mjd, y.mjd.raw().value());
        eq(x.altitude_deg, y.altitude.value(), "culmination altitude")?;
        ensure!((x.kind == SiderustCulminationKind::Max) == matches!(y.kind, siderust::CulminationKind::Max), "kind of the culmination at {}", x.mjd);
    }
    for b in [45.0, 180.0] {
        let c = list(|a, n| siderust_azimuth_crossings(s, *o, w, b, op, a, n), siderust_azimuth_crossings_free)?;
        let r = az::azimuth_crossings(p, &ro, rw, Degrees::new(b), rop);
        ensure!(c.len() == r.len(), "azimuth crossings: {} against {}", c.len(), r.len());
        for (x, y) in c.iter().zip(&r) {
            eq(x.mjd, y.mjd.raw().value(), "azimuth crossing")?;
            ensure!((x.direction == SiderustCrossingDirection::Rising) == matches!(y.direction, az::AzimuthCrossingDirection::Rising), "direction of the azimuth crossing");
        }
    }
    let c = list(|a, n| siderust_azimuth_extrema(s, *o, w, op, a, n), siderust_azimuth_extrema_free)?;
    let r = az::azimuth_extrema(p, &ro, rw, rop);
    ensure!(c.len() == r.len(), "azimuth extrema: {} against {}", c.len(), r.len());
    for (x, y) in c.iter().zip(&r) {
        ensure!(close(x.mjd, y.mjd.raw().value(), if exact { 0.0 } else { 1e-4 }), "azimuth extremum at {} against {}", x.mjd, y.mjd.raw().value());
        eq(x.azimuth_deg, y.azimuth.value(), "extremum azimuth")?;
        ensure!((x.kind == SiderustAzimuthExtremumKind::Max) == matches!(y.kind, az::AzimuthExtremumKind::Max), "kind of the azimuth extremum");
    }
    for (lo, hi) in [(30.0, 200.0), (300.0, 60.0)] {
        let (a0, b0) = (Degrees::new(lo), Degrees::new(hi));
        eqp(periods(|a, n| siderust_in_azimuth_range(s, *o, w, lo, hi, op, a, n)), rperiods(az::in_azimuth_range(p, &ro, rw, a0, b0, rop)), "in azimuth range")?;
        h ^= eqp(periods(|a, n| siderust_outside_azimuth_range(s, *o, w, lo, hi, op, a, n)), rperiods(az::outside_azimuth_range(p, &ro, rw, a0, b0, rop)), "outside azimuth range")? << 8;
    }
    Ok(h)
}
fn star_made(ra: f64, dec: f64, out: &mut *mut SiderustStar) -> St {
    let pm = SiderustProperMotion { pm_ra_deg_yr: 1e-4, pm_dec_deg_yr: -2e-4, ra_convention: SiderustRaConvention::MuAlphaStar };
    let name = CString::new("made").unwrap();
    siderust_star_create(name.as_ptr(), 10.0, 1.0, 1.1, 1.2, ra, dec, 2_451_545.0, &pm, out)
}
fn tracking(ctx: &Ctx) {
    let mut subs: Vec<Subj> = (0..9).map(Subj::Body).collect();
    subs.extend((0..10).map(Subj::Star));
    for (a, d) in [(0.0, 0.0), (37.95, 89.26), (210.0, -60.8), (359.9, 12.0)] {
        subs.push(Subj::Made(a, d));
        subs.push(Subj::Icrs(a, d));
        for k in 0..3 {
            for f in 0..6 {
                subs.push(Subj::Target(k, f, a, d));
            }
        }
    }
    let sites = [site(2.35, 48.85, 35.0), site(-70.4, -24.6, 2600.0), site(18.95, 69.65, 0.0), site(-78.0, 0.0, 2800.0)];
    let mut items = vec![];
    for s in &subs {
        for (oi, o) in sites.iter().enumerate() {
            for t in ctx.pick(vec![60_000.0], vec![60_000.0, 58_849.37, 51_544.5, 61_234.9]) {
                items.push((s.clone(), oi, *o, t));
            }
        }
    }
    ctx.par(&items, |l, (s, oi, o, t)| {
        let o = *o;
        l.case("tracking", &format!("{s:?},site={oi},mjd={t}"), || {
            use siderust::bodies::{solar_system as ss, Moon, Sun};
            match *s {
                Subj::Body(i) => {
                    let c = subject_body(BODIES[i]);
                    match i {
                        0 => track(&Sun, c, &o, *t, 1.0, true),
                        1 => track(&Moon, c, &o, *t, 1.0, true),
                        2 => track(&ss::Mercury, c, &o, *t, 1.0, true),
                        3 => track(&ss::Venus, c, &o, *t, 1.0, true),
                        4 => track(&ss::Mars, c, &o, *t, 1.0, true),
                        5 => track(&ss::Jupiter, c, &o, *t, 1.0, true),
                        6 => track(&ss::Saturn, c, &o, *t, 1.0, true),
                        7 => track(&ss::Uranus, c, &o, *t, 1.0, true),
                        _ => track(&ss::Neptune, c, &o, *t, 1.0, true),
                    }
                }
                Subj::Star(i) => {
                    let name = CString::new(STARS[i]).unwrap();
                    let mut h = null_mut();
                    ensure!(siderust_star_catalog(name.as_ptr(), &mut h) == OK, "catalogue star refused");
                    let r = track(star_ref(i), subject_star(h), &o, *t, 1.0, true);
                    unsafe { siderust_star_free(h) };
                    r
                }
                Subj::Made(ra, dec) => {
                    let mut h = null_mut();
                    ensure!(star_made(ra, dec, &mut h) == OK, "star refused");
                    let want = spherical::direction::ICRS::new(Degrees::new(ra), Degrees::new(dec));
                    let r = track(&want, subject_star(h), &o, *t, 1.0, true);
                    unsafe { siderust_star_free(h) };
                    r
                }
                Subj::Icrs(ra, dec) => {
                    let want = spherical::direction::ICRS::new(Degrees::new(ra), Degrees::new(dec));
                    track(&want, subject_icrs(dir(dec, ra, SiderustFrame::ICRS)), &o, *t, 1.0, true)
                }
                Subj::Target(k, f, a, d) => {
                    let data = target_data(k, FRAMES[[0, 5, 1, 2, 3, 4][f]], a, d, 2_455_000.5, None);
                    let mut h = null_mut();
                    let st = siderust_generic_target_create(data, &mut h);
                    ensure!(st == OK, "target refused: {st:?}");
                    let want = icrs_of(FRAMES[[0, 5, 1, 2, 3, 4][f]], a, d, 2_455_000.5).unwrap();
                    let r = track(&want, subject_target(h), &o, *t, 1.0, false);
                    unsafe { siderust_generic_target_free(h) };
                    r
                }
            }
        });
    });
    // a fixed direction or target of a frame it cannot take is refused, never read as another one
    let mut l = Local::default();
    for (i, f) in FRAMES.into_iter().enumerate() {
        l.case("subject-frame", &format!("{f:?}"), || {
            let mut v = -9.0;
            let s = siderust_altitude_at(subject_icrs(dir(20.0, 100.0, f)), sites[0], 60_000.0, &mut v);
            if i == 0 {
                ensure!(s == OK, "ICRS direction refused");
            } else if s == OK {
                // another frame may be converted or refused
                let want = icrs_of(f, 100.0, 20.0, 2_460_000.5).ok_or(format!("a direction in {f:?} was taken as {v} rad"))?;
                let w = want.altitude_at(&rsite(&sites[0]), mjd(60_000.0)).value();
                ensure!(close(v, w, 1e-5), "a direction in {f:?} stands {v} rad high, expected {w}");
            } else {
                ensure!(s == St::InvalidFrame, "a direction in {f:?} refused with {s:?}");
                ensure!(v == -9.0, "the output was written on a refusal");
            }
            for k in 0..3 {
                let mut h: *mut SiderustGenericTarget = null_mut();
                let s = siderust_generic_target_create(target_data(k, f, 100.0, 20.0, 2_455_000.5, None), &mut h);
                ensure!((s == OK) == !h.is_null(), "status {s:?} with handle {h:?}");
                if i < 6 {
                    ensure!(s == OK, "target in {f:?} refused");
                } else {
                    ensure!(s == St::InvalidFrame, "target in {f:?}: {s:?}");
                }
                unsafe { siderust_generic_target_free(h) };
            }
            Ok(i as u64 + 1)
        });
    }
    ctx.merge(l);
}

// ------------------------------------------------------------------ frame transforms
fn v3(d: [f64; 3]) -> [f64; 3] {
    d
}
fn to_v(pol: f64, azim: f64) -> [f64; 3] {
    let (p, a) = (pol.to_radians(), azim.to_radians());
    [p.cos() * a.cos(), p.cos() * a.sin(), p.sin()]
}
fn far(a: [f64; 3], b: [f64; 3]) -> f64 {
    (0..3).map(|i| (a[i] - b[i]).powi(2)).sum::<f64>().sqrt()
}
/// The direct rotation between two of the five supported frames (or ICRF), by the typed transforms.
fn rotate(src: SiderustFrame, dst: SiderustFrame, v: [f64; 3], j: &JulianDate, model: Option<usize>) -> Option<[f64; 3]> {
    use siderust::astro::nutation::*;
    use siderust::coordinates::transform::context::{DefaultEop, DefaultEphemeris};
    use siderust::coordinates::transform::AstroContext;
    macro_rules! step {
        ($s:ty, $d:ty, $v:expr) => {{
            let p = cartesian::Position::<Barycentric, $s, AstronomicalUnit>::new($v[0], $v[1], $v[2]);
            macro_rules! with {
                ($m:ty) => {{
                    let c: AstroContext<DefaultEphemeris, DefaultEop> = AstroContext::default();
                    p.to_frame_with::<$d, _>(j, &c.with_model::<$m>())
                }};
            }
            let q = match model {
                None => p.to_frame::<$d>(j),
                Some(0) => with!(Iau2000A),
                Some(1) => with!(Iau2000B),
                Some(2) => with!(Iau2006),
                _ => with!(Iau2006A),
            };
            [q.x().value(), q.y().value(), q.z().value()]
        }};
    }
    let hub = match src {
        SiderustFrame::ICRS => v,
        SiderustFrame::EclipticMeanJ2000 => step!(EclipticMeanJ2000, ICRS, v),
        SiderustFrame::EquatorialMeanJ2000 => step!(EquatorialMeanJ2000, ICRS, v),
        SiderustFrame::EquatorialMeanOfDate => step!(EquatorialMeanOfDate, ICRS, v),
        SiderustFrame::EquatorialTrueOfDate => step!(EquatorialTrueOfDate, ICRS, v),
        _ => return None,
    };
    Some(match dst {
        SiderustFrame::ICRS => hub,
        SiderustFrame::EclipticMeanJ2000 => step!(ICRS, EclipticMeanJ2000, hub),
        SiderustFrame::EquatorialMeanJ2000 => step!(ICRS, EquatorialMeanJ2000, hub),
        SiderustFrame::EquatorialMeanOfDate => step!(ICRS, EquatorialMeanOfDate, hub),
        SiderustFrame::EquatorialTrueOfDate => step!(ICRS, EquatorialTrueOfDate, hub),
        _ => return None,
    })
}
struct CtxH(*mut SiderustContext);
impl CtxH {
    fn new(m: SiderustEarthOrientationModel) -> CtxH {
        let mut p = null_mut();
        assert_eq!(siderust_context_create_with_model(m, &mut p), OK);
        CtxH(p)
    }
}
impl Drop for CtxH {
    fn drop(&mut self) {
        unsafe { siderust_context_free(self.0) }
    }
}
fn frames(ctx: &Ctx) {
    let dirs: Vec<(f64, f64)> = product(&[ctx.pick(5, 9), ctx.pick(6, 12)]).iter().map(|i| (-88.0 + 176.0 * i[0] as f64 / (ctx.pick(5, 9) - 1) as f64, 7.0 + 360.0 * i[1] as f64 / ctx.pick(6, 12) as f64)).collect();
    let jds = ctx.pick(vec![2_451_545.0, 2_460_310.5], vec![2_451_545.0, 2_460_310.5, 2_433_282.5, 2_462_000.25]);
    let mut items = vec![];
    for s in FRAMES {
        for d in FRAMES {
            for &j in &jds {
                for m in [None, Some(0), Some(1), Some(2), Some(3)] {
                    items.push((s, d, j, m));
                }
            }
        }
    }
    ctx.par(&items, |l, &(s, d, j, m)| {
        let c = m.map(|i| CtxH::new(MODELS[i]));
        l.case("frames", &format!("{s:?}>{d:?},jd={j},model={m:?}"), || {
            let t = jd(j);
            let mut h = 1;
            for &(pol, azim) in &dirs {
                let v = to_v(pol, azim);
                let want = rotate(s, d, v, &t, m);
                // spherical
                let mut o = dir(-7.0, -7.0, SiderustFrame::CIRS);
                let st = match &c {
                    None => siderust_spherical_dir_transform_frame(pol, azim, s, d, j, &mut o),
                    Some(c) => siderust_spherical_dir_transform_frame_with_context(pol, azim, s, d, j, c.0, &mut o),
                };
                match want {
                    Some(w) => {
                        ensure!(st == OK, "spherical direction refused: {st:?}");
                        ensure!(o.frame == d, "result is labelled {:?}", o.frame);
                        ensure!(far(to_v(o.polar_deg, o.azimuth_deg), w) < 1e-7, "({pol}, {azim}) became ({}, {}), expected {w:?}", o.polar_deg, o.azimuth_deg);
                        h ^= o.polar_deg.to_bits();
                    }
                    None => {
                        // ICRF is offered for positions only; any other refusal must say so and write nothing
                        ensure!(st == St::InvalidFrame, "unsupported pair answered {st:?}");
                        ensure!(o.polar_deg == -7.0 && o.azimuth_deg == -7.0, "output written on a refusal");
                    }
                }
                // cartesian direction of any length, and position
                for k in [1.0, 250.0] {
                    let u = v.map(|x| x * k);
                    let mut o = pos([-7.0; 3], SiderustFrame::CIRS, SiderustCenter::Topocentric, SiderustLengthUnit::Parsec);
                    let st = match &c {
                        None => siderust_cartesian_dir_transform_frame(u[0], u[1], u[2], s, d, j, &mut o),
                        Some(c) => siderust_cartesian_dir_transform_frame_with_context(u[0], u[1], u[2], s, d, j, c.0, &mut o),
                    };
                    match want {
                        Some(w) => {
                            ensure!(st == OK, "cartesian direction refused: {st:?}");
                            ensure!(o.frame == d, "result is labelled {:?}", o.frame);
                            ensure!(far([o.x, o.y, o.z], w.map(|x| x * k)) < 1e-12 * k, "direction {u:?} became {:?}, expected {w:?} times {k}", [o.x, o.y, o.z]);
                        }
                        None => ensure!(st == St::InvalidFrame && o.x == -7.0, "unsupported pair answered {st:?}"),
                    }
                    for (ci, un) in [(0, 0), (2, 1), (4, 3)] {
                        let mut o = pos([-7.0; 3], SiderustFrame::CIRS, SiderustCenter::Topocentric, SiderustLengthUnit::LightYear);
                        let p = pos(u, s, CENTERS[ci], UNITS[un].0);
                        let st = match &c {
                            None => siderust_cartesian_pos_transform_frame(p, d, j, &mut o),
                            Some(c) => siderust_cartesian_pos_transform_frame_with_context(p, d, j, c.0, &mut o),
                        };
                        let icrf = |f| if f == SiderustFrame::ICRF { SiderustFrame::ICRS } else { f };
                        match rotate(icrf(s), icrf(d), u, &t, m) {
                            Some(w) => {
                                ensure!(st == OK, "position refused: {st:?}");
                                ensure!(o.frame == d && o.center == CENTERS[ci] && o.length_unit == UNITS[un].0, "result is labelled {:?}", o);
                                ensure!(far([o.x, o.y, o.z], w) < 1e-12 * k, "position {u:?} became {:?}, expected {w:?}", [o.x, o.y, o.z]);
                            }
                            None => ensure!(st == St::InvalidFrame && o.x == -7.0, "unsupported pair answered {st:?}"),
                        }
                    }
                }
            }
            Ok(h)
        });
    });
    // horizontal coordinates
    let sites = [site(2.35, 48.85, 35.0), site(-70.4, -24.6, 2600.0), site(120.0, 0.0, 0.0), site(0.0, 89.0, 0.0)];
    let mut items = vec![];
    for s in FRAMES {
        for &j in &jds {
            for (oi, o) in sites.iter().enumerate() {
                items.push((s, j, oi, *o));
            }
        }
    }
    ctx.par(&items, |l, &(s, j, oi, o)| {
        l.case("horizontal", &format!("{s:?},jd={j},site={oi}"), || {
            let t = jd(j);
            let j1 = j - 69.0 / 86400.0;
            let mut h = 1;
            for &(pol, azim) in &dirs {
                let v = to_v(pol, azim);
                for m in [None, Some(9), Some(0), Some(1), Some(2), Some(3)] {
                    let c = m.filter(|&i| i < 4).map(|i: usize| CtxH::new(MODELS[i]));
                    let mut r = dir(-999.0, -999.0, SiderustFrame::CIRS);
                    let st = match m {
                        None => siderust_spherical_dir_to_horizontal(pol, azim, s, j, o, &mut r),
                        Some(9) => siderust_spherical_dir_to_horizontal_precise(pol, azim, s, j, j1, o, &mut r),
                        _ => siderust_spherical_dir_to_horizontal_precise_with_context(pol, azim, s, j, j1, o, c.as_ref().unwrap().0, &mut r),
                    };
                    let eq = rotate(s, SiderustFrame::EquatorialTrueOfDate, v, &t, m.filter(|&i| i < 4));
                    let Some(eq) = eq else {
                        ensure!(st == St::InvalidFrame && r.polar_deg == -999.0, "unsupported frame answered {st:?}");
                        continue;
                    };
                    ensure!(st == OK, "refused: {st:?}");
                    let d = cartesian::Direction::<EquatorialTrueOfDate>::new(eq[0], eq[1], eq[2]);
                    let w = match m {
                        None => d.to_horizontal(&t, &rsite(&o)),
                        _ => d.to_horizontal_precise(&t, &jd(j1), &rsite(&o)),
                    };
                    // altitude from the vertical component, azimuth from north through east
                    let (x, y, z) = (w.x(), w.y(), w.z());
                    ensure!(r.frame == SiderustFrame::Horizontal, "labelled {:?}", r.frame);
                    ensure!(close(r.polar_deg, z.atan2(x.hypot(y)).to_degrees(), 1e-6), "altitude {} of ({pol}, {azim}), expected {}", r.polar_deg, z.atan2(x.hypot(y)).to_degrees());
                    ensure!(far(to_v(r.polar_deg, r.azimuth_deg), [x, y, z]) < 1e-7, "horizontal ({}, {}), expected {:?}", r.polar_deg, r.azimuth_deg, [x, y, z]);
                    h ^= r.polar_deg.to_bits();
                }
            }
            Ok(h)
        });
    });
}

// ------------------------------------------------------------------ positions and orbits
fn cart(p: &SiderustCartesianPos) -> [f64; 3] {
    [p.x, p.y, p.z]
}
fn blank() -> SiderustCartesianPos {
    pos([-7.0; 3], SiderustFrame::CIRS, SiderustCenter::Topocentric, SiderustLengthUnit::LightYear)
}
fn untouched(o: &SiderustCartesianPos) -> bool {
    let b = blank();
    (cart(o), o.frame, o.center, o.length_unit) == (cart(&b), b.frame, b.center, b.length_unit)
}
fn add(a: [f64; 3], b: [f64; 3], k: f64) -> [f64; 3] {
    [a[0] + k * b[0], a[1] + k * b[1], a[2] + k * b[2]]
}
/// Where a centre stands from the solar-system barycentre, in au of the ecliptic of J2000.
fn origin(c: SiderustCenter, t: JulianDate) -> Option<[f64; 3]> {
    match c {
        SiderustCenter::Barycentric => Some([0.0; 3]),
        SiderustCenter::Heliocentric => Some(xyz(&<Vsop87Ephemeris as Ephemeris>::sun_barycentric(t))),
        SiderustCenter::Geocentric => Some(add(xyz(&<Vsop87Ephemeris as Ephemeris>::earth_heliocentric(t)), xyz(&<Vsop87Ephemeris as Ephemeris>::sun_barycentric(t)), 1.0)),
        _ => None,
    }
}
fn xyz<C, F, U>(p: &cartesian::Position<C, F, U>) -> [f64; 3]
where
    C: siderust::coordinates::centers::ReferenceCenter,
    F: ReferenceFrame,
    U: siderust::qtty::LengthUnit,
{
    [p.x().value(), p.y().value(), p.z().value()]
}
/// An au vector of the ecliptic of J2000 in another frame and unit.
fn expressed(v: [f64; 3], frame: SiderustFrame, unit: usize, t: &JulianDate) -> Option<[f64; 3]> {
    let f = if frame == SiderustFrame::ICRF { SiderustFrame::ICRS } else { frame };
    let k = UNITS[0].1 / UNITS[unit].1;
    Some(rotate(SiderustFrame::EclipticMeanJ2000, f, v, t, None)?.map(|x| x * k))
}
fn orbit_of(k: usize) -> SiderustOrbit {
    let o = |a, e, i, n, w, m| SiderustOrbit { semi_major_axis_au: a, eccentricity: e, inclination_deg: i, lon_ascending_node_deg: n, arg_periapsis_deg: w, mean_anomaly_deg: m, epoch_jd: 2_451_545.0 };
    [o(1.0, 0.0167, 0.0, 0.0, 102.9, 357.5), o(1.524, 0.0934, 1.85, 49.6, 286.5, 19.4), o(0.00257, 0.0549, 5.1, 125.1, 318.1, 135.0), o(2.7, 0.4, 40.0, 200.0, 75.0, 300.0), o(4.2e-5, 0.02, 98.0, 12.0, 90.0, 0.0)][k]
}
/// Accept a right answer, or for inputs outside the documented ones a refusal that leaves the output alone.
fn answer(st: St, o: &SiderustCartesianPos, want: Option<[f64; 3]>, must: bool, label: (SiderustFrame, SiderustCenter, SiderustLengthUnit), tol: f64) -> Result<u64, String> {
    if st == OK {
        let w = want.ok_or(format!("an input with no meaning was answered {o:?}"))?;
        let n = w.iter().map(|x| x * x).sum::<f64>().sqrt();
        ensure!(far(cart(o), w) <= tol * (n + tol), "{:?}, expected {w:?}", cart(o));
        ensure!((o.frame, o.center, o.length_unit) == label, "labelled {o:?}, expected {label:?}");
        Ok(o.x.to_bits() | 1)
    } else {
        ensure!(!must, "refused with {st:?}");
        ensure!(matches!(st, St::InvalidFrame | St::InvalidCenter | St::InvalidDimension | St::InvalidArgument), "refused with {st:?}");
        ensure!(untouched(o), "the output was written on a refusal");
        Ok(st as u64)
    }
}
fn positions(ctx: &Ctx) {
    let jds = ctx.pick(vec![2_451_545.0, 2_460_310.5], vec![2_451_545.0, 2_460_310.5, 2_433_282.5, 2_462_000.25]);
    let vs = [[1.0, 0.0, 0.0], [-0.3, 0.8, 0.2], [5e-4, 2e-3, -1e-3]];
    let mut items = vec![];
    for f in 0..15 {
        for u in 0..5 {
            for &j in &jds {
                items.push((f, u, j));
            }
        }
    }
    ctx.par(&items, |l, &(fi, ui, j)| {
        let (f, (unit, m), t) = (FRAMES[fi], UNITS[ui], jd(j));
        let doc = f == SiderustFrame::EclipticMeanJ2000 && ui == 0;
        let k = UNITS[0].1 / m;
        for from in CENTERS {
            for to in CENTERS {
                l.case("centre", &format!("{f:?},{unit:?},{from:?}>{to:?},jd={j}"), || {
                    let mut h = 0;
                    for v in vs {
                        let u = v.map(|x| x * k);
                        let mut o = blank();
                        let st = siderust_cartesian_pos_transform_center(pos(u, f, from, unit), to, j, &mut o);
                        let want = match (origin(from, t), origin(to, t)) {
                            _ if from == to => Some(u),
                            (Some(a), Some(b)) => expressed(add(a, b, -1.0), f, ui, &t).map(|s| add(u, s, 1.0)),
                            _ => None,
                        };
                        let must = doc && origin(from, t).is_some() && origin(to, t).is_some();
                        // sums of au-sized offsets: relative to the au, not to the result
                        let tol = 1e-12 * k;
                        if st == OK {
                            let w = want.ok_or(format!("moved from {from:?} to {to:?}: {o:?}"))?;
                            ensure!(far(cart(&o), w) <= 10.0 * tol, "{u:?} became {:?}, expected {w:?}", cart(&o));
                            ensure!((o.frame, o.center, o.length_unit) == (f, to, unit), "labelled {o:?}");
                            h ^= o.x.to_bits();
                        } else {
                            h ^= answer(st, &o, None, must, (f, to, unit), 0.0)?;
                        }
                    }
                    Ok(h | 1)
                });
            }
        }
        for oc in 0..4u8 {
            for ok in 0..5 {
                let params = SiderustBodycentricParams { orbit: orbit_of(ok), orbit_center: oc, _pad: [0; 7] };
                let center = [SiderustCenter::Barycentric, SiderustCenter::Heliocentric, SiderustCenter::Geocentric, SiderustCenter::Bodycentric][oc as usize];
                l.case("bodycentric", &format!("{f:?},{unit:?},orbit={ok},about={oc},jd={j}"), || {
                    let body = origin(center, t).map(|b| {
                        let mu = if oc == 2 { siderust::astro::dynamics::units::GM_EARTH } else { siderust::astro::dynamics::units::GM_SUN };
                        add(b, xyz(&params.orbit.try_to_rust().unwrap().position_with_mu(t, mu)), 1.0)
                    });
                    let mut h = 0;
                    for v in vs {
                        let u = v.map(|x| x * k);
                        for from in CENTERS {
                            let mut o = blank();
                            let st = siderust_to_bodycentric(pos(u, f, from, unit), params, j, &mut o);
                            let want = match (origin(from, t), body) {
                                (Some(a), Some(b)) => expressed(add(a, b, -1.0), f, ui, &t).map(|s| add(u, s, 1.0)),
                                _ => None,
                            };
                            let must = doc && want.is_some();
                            if st == OK {
                                let w = want.ok_or(format!("from {from:?} with centre code {oc}: {o:?}"))?;
                                ensure!(far(cart(&o), w) <= 1e-10 * k, "{u:?} from {from:?} became {:?}, expected {w:?}", cart(&o));
                                ensure!((o.frame, o.center, o.length_unit) == (f, SiderustCenter::Bodycentric, unit), "labelled {o:?}");
                                h ^= o.x.to_bits();
                            } else {
                                h ^= answer(st, &o, None, must, (f, from, unit), 0.0)?;
                            }
                        }
                        let mut o = blank();
                        let st = siderust_from_bodycentric(pos(u, f, SiderustCenter::Bodycentric, unit), params, j, &mut o);
                        let geo = origin(SiderustCenter::Geocentric, t).unwrap();
                        let want = body.and_then(|b| expressed(add(b, geo, -1.0), f, ui, &t)).map(|s| add(u, s, 1.0));
                        if st == OK {
                            let w = want.ok_or(format!("back with centre code {oc}: {o:?}"))?;
                            let w = w.map(|x| x * m / UNITS.iter().find(|x| x.0 == o.length_unit).unwrap().1);
                            let kk = UNITS[0].1 / UNITS.iter().find(|x| x.0 == o.length_unit).unwrap().1;
                            ensure!(far(cart(&o), w) <= 1e-10 * kk, "{u:?} came back as {:?}, expected {w:?}", cart(&o));
                            ensure!((o.frame, o.center) == (f, SiderustCenter::Geocentric), "labelled {o:?}");
                            h ^= o.y.to_bits();
                        } else {
                            h ^= answer(st, &o, None, doc && oc < 3, (f, SiderustCenter::Geocentric, unit), 0.0)?;
                        }
                    }
                    Ok(h | 1)
                });
                if fi == 0 && ui == 0 {
                    l.case("kepler", &format!("orbit={ok},about={oc},jd={j}"), || {
                        let mut o = blank();
                        let st = siderust_kepler_position_ex(orbit_of(ok), oc, j, &mut o);
                        let mu = if oc == 2 { siderust::astro::dynamics::units::GM_EARTH } else { siderust::astro::dynamics::units::GM_SUN };
                        let want = (oc < 3).then(|| xyz(&params.orbit.try_to_rust().unwrap().position_with_mu(t, mu)));
                        answer(st, &o, want, oc < 3, (SiderustFrame::EclipticMeanJ2000, center, SiderustLengthUnit::AU), 1e-12)
                    });
                }
            }
        }
    });
    // orbits in the other two forms, and prepared ones
    let mut l = Local::default();
    let lab = (SiderustFrame::EclipticMeanJ2000, SiderustCenter::Heliocentric, SiderustLengthUnit::AU);
    for ix in product(&[4, 6, 3, 5]) {
        let (a, e) = ([0.4, 1.0, 5.2, 30.0][ix[0]], [0.0, 0.2, 0.7, 0.99, 1.0, 1.6][ix[1]]);
        let (i, m, j) = ([0.0, 30.0, 120.0][ix[2]], [0.0, 45.0, 180.0, 300.0, -20.0][ix[3]], 2_460_000.5);
        l.case("orbits", &format!("a={a},e={e},i={i},m={m}"), || {
            use siderust::{ConicOrbit, MeanMotionOrbit, PreparedOrbit};
            let (au, dg) = (AstronomicalUnits::new, Degrees::new);
            let (t, ep) = (jd(j), jd(2_459_000.5));
            let mut o = blank();
            let w = MeanMotionOrbit::try_new(au(a), e, dg(i), dg(10.0), dg(20.0), qtty::Quantity::new(m / 100.0), ep).ok().and_then(|x| x.position_at(t).ok());
            let st = siderust_mean_motion_position(SiderustMeanMotionOrbit { semi_major_axis_au: a, eccentricity: e, inclination_deg: i, lon_ascending_node_deg: 10.0, arg_periapsis_deg: 20.0, mean_motion_deg_per_day: m / 100.0, epoch_jd: 2_459_000.5 }, j, &mut o);
            let mut h = answer(st, &o, w.as_ref().map(xyz), w.is_some(), lab, 0.0)?;
            let mut o = blank();
            let w = ConicOrbit::try_new(au(a), e, dg(i), dg(10.0), dg(20.0), dg(m), ep).ok().and_then(|x| x.position_at(t).ok());
            let st = siderust_conic_position(SiderustConicOrbit { periapsis_distance_au: a, eccentricity: e, inclination_deg: i, lon_ascending_node_deg: 10.0, arg_periapsis_deg: 20.0, mean_anomaly_deg: m, epoch_jd: 2_459_000.5 }, j, &mut o);
            h ^= answer(st, &o, w.as_ref().map(xyz), w.is_some(), lab, 0.0)?;
            let w = PreparedOrbit::try_from_elements(au(a), e, dg(i), dg(10.0), dg(20.0), dg(m), ep).ok();
            let so = SiderustOrbit { semi_major_axis_au: a, eccentricity: e, inclination_deg: i, lon_ascending_node_deg: 10.0, arg_periapsis_deg: 20.0, mean_anomaly_deg: m, epoch_jd: 2_459_000.5 };
            let mut p: SiderustPreparedOrbitHandle = null_mut();
            let st = siderust_prepared_orbit_create(so, &mut p);
            ensure!((st == OK) == w.is_some() && (st == OK) == !p.is_null(), "prepared orbit: {st:?}");
            if let Some(w) = w {
                for d in [-4000.0, 0.0, 0.5, 1000.0] {
                    let mut o = blank();
                    let st = siderust_prepared_orbit_position(p, j + d, &mut o);
                    h ^= answer(st, &o, Some(xyz(&w.position_at(jd(j + d)))), true, lab, 0.0)?;
                }
                ensure!(siderust_prepared_orbit_destroy(p) == OK, "prepared orbit not destroyed");
            }
            Ok(h | 1)
        });
    }
    for ix in product(&[13, 13, 5]) {
        let s = site(-180.0 + 30.0 * ix[0] as f64, -90.0 + 15.0 * ix[1] as f64, [-400.0, 0.0, 35.5, 8848.0, 3.5e7][ix[2]]);
        l.case("ecef", &format!("{s:?}"), || {
            let (mut o, mut g) = (blank(), site(0.0, 0.0, 0.0));
            let st = siderust_geodetic_to_cartesian_ecef(s, &mut o);
            // WGS-84, from its defining constants
            let (a, fl) = (6_378_137.0, 1.0 / 298.257_223_563);
            let (e2, (sp, cp)) = (fl * (2.0 - fl), s.lat_deg.to_radians().sin_cos());
            let n = a / (1.0 - e2 * sp * sp as f64).sqrt();
            let (sl, cl) = s.lon_deg.to_radians().sin_cos();
            let w = [(n + s.height_m) * cp * cl, (n + s.height_m) * cp * sl, (n * (1.0 - e2) + s.height_m) * sp];
            ensure!(far(cart(&o), w) < 1e-6, "{:?}, expected {w:?}", cart(&o));
            ensure!((o.frame, o.center, o.length_unit) == (SiderustFrame::ECEF, SiderustCenter::Geocentric, SiderustLengthUnit::Meter), "labelled {o:?}");
            ensure!(st == OK && siderust_geodetic_new(s.lon_deg, s.lat_deg, s.height_m, &mut g) == OK, "refused");
            ensure!((g.lon_deg, g.lat_deg, g.height_m) == (s.lon_deg, s.lat_deg, s.height_m), "{s:?} became {g:?}");
            Ok(o.x.to_bits() | 1)
        });
    }
    ctx.merge(l);
}

// ------------------------------------------------------------------ ephemerides
fn ephemerides(ctx: &Ctx) {
    use siderust::bodies::solar_system as ss;
    let n = ctx.pick(40, 400);
    let jds: Vec<f64> = (0..n).map(|i| 2_415_020.5 + 137.31 * i as f64 * 300.0 / n as f64 + 0.123).collect();
    let mut l = Local::default();
    for &j in &jds {
        let t = jd(j);
        macro_rules! eph {
            ($(($f:ident, $w:expr, $c:ident, $u:ident)),* $(,)?) => {$(
                l.case("ephemeris", &format!("{},jd={j}", stringify!($f)), || {
                    let mut o = blank();
                    let st = $f(j, &mut o);
                    answer(st, &o, Some(xyz(&$w)), true, (SiderustFrame::EclipticMeanJ2000, SiderustCenter::$c, SiderustLengthUnit::$u), 0.0)
                });
            )*};
        }
        eph!(
            (siderust_vsop87_sun_barycentric, <Vsop87Ephemeris as Ephemeris>::sun_barycentric(t), Barycentric, AU),
            (siderust_vsop87_earth_barycentric, <Vsop87Ephemeris as Ephemeris>::earth_barycentric(t), Barycentric, AU),
            (siderust_vsop87_earth_heliocentric, <Vsop87Ephemeris as Ephemeris>::earth_heliocentric(t), Heliocentric, AU),
            (siderust_vsop87_moon_geocentric, <Vsop87Ephemeris as Ephemeris>::moon_geocentric(t), Geocentric, Km),
            (siderust_vsop87_mercury_heliocentric, ss::Mercury::vsop87a(t), Heliocentric, AU),
            (siderust_vsop87_mercury_barycentric, ss::Mercury::vsop87e(t), Barycentric, AU),
            (siderust_vsop87_venus_heliocentric, ss::Venus::vsop87a(t), Heliocentric, AU),
            (siderust_vsop87_venus_barycentric, ss::Venus::vsop87e(t), Barycentric, AU),
            (siderust_vsop87_mars_heliocentric, ss::Mars::vsop87a(t), Heliocentric, AU),
            (siderust_vsop87_mars_barycentric, ss::Mars::vsop87e(t), Barycentric, AU),
            (siderust_vsop87_jupiter_heliocentric, ss::Jupiter::vsop87a(t), Heliocentric, AU),
            (siderust_vsop87_jupiter_barycentric, ss::Jupiter::vsop87e(t), Barycentric, AU),
            (siderust_vsop87_saturn_heliocentric, ss::Saturn::vsop87a(t), Heliocentric, AU),
            (siderust_vsop87_saturn_barycentric, ss::Saturn::vsop87e(t), Barycentric, AU),
            (siderust_vsop87_uranus_heliocentric, ss::Uranus::vsop87a(t), Heliocentric, AU),
            (siderust_vsop87_uranus_barycentric, ss::Uranus::vsop87e(t), Barycentric, AU),
            (siderust_vsop87_neptune_heliocentric, ss::Neptune::vsop87a(t), Heliocentric, AU),
            (siderust_vsop87_neptune_barycentric, ss::Neptune::vsop87e(t), Barycentric, AU),
        );
    }
    // files
    let (init, intlen, nrec, nc) = (-3_456_000.0, 691_200.0, 10, 6);
    let mk = |t: i32, c: i32, seed: u64, big: f64| cheb(t, c, 2, init, intlen, nrec, nc, &|a, r, k| coef(seed, a, r, k) * if a < 3 { big } else { 1e-3 });
    let bytes = daf("DAF/SPK", &[mk(10, 0, 1, 10.0), mk(3, 0, 2, 1000.0), mk(301, 3, 3, 5.0)], PLAIN);
    let rust = RuntimeEphemeris::from_bytes(&bytes).expect("a valid file");
    let dir = std::env::temp_dir().join(format!("mcffi-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let path = dir.join("a.bsp");
    std::fs::write(&path, &bytes).unwrap();
    for from_path in [false, true] {
        l.case("runtime", &format!("from_path={from_path}"), || {
            let mut h: *mut SiderustRuntimeEphemeris = null_mut();
            let st = if from_path {
                let p = CString::new(path.to_str().unwrap()).unwrap();
                siderust_runtime_ephemeris_load_bsp(p.as_ptr(), &mut h)
            } else {
                siderust_runtime_ephemeris_load_bytes(bytes.as_ptr(), bytes.len(), &mut h)
            };
            ensure!(st == OK && !h.is_null(), "a valid file is refused: {st:?}");
            let mut hash = 1;
            for k in -3..84 {
                // outside the file on both ends as well
                let j = 2_451_545.0 + (init + intlen * nrec as f64 * k as f64 / 80.0) / 86_400.0 + 1e-3;
                let t = jd(j);
                macro_rules! q {
                    ($f:ident, $m:ident, $c:ident, $u:ident) => {{
                        let mut o = blank();
                        let st = $f(h, j, &mut o);
                        match rust.$m(t) {
                            Ok(w) => hash ^= answer(st, &o, Some(xyz(&w)), true, (SiderustFrame::EclipticMeanJ2000, SiderustCenter::$c, SiderustLengthUnit::$u), 0.0)?,
                            Err(_) => ensure!(matches!(st, St::OutOfRange) && untouched(&o), "{} outside the file answered {st:?}", stringify!($f)),
                        }
                    }};
                }
                q!(siderust_runtime_ephemeris_sun_barycentric, try_sun_barycentric, Barycentric, AU);
                q!(siderust_runtime_ephemeris_earth_barycentric, try_earth_barycentric, Barycentric, AU);
                q!(siderust_runtime_ephemeris_earth_heliocentric, try_earth_heliocentric, Heliocentric, AU);
                q!(siderust_runtime_ephemeris_moon_geocentric, try_moon_geocentric, Geocentric, Km);
                let mut v = SiderustCartesianVel { vx: -7.0, vy: -7.0, vz: -7.0, frame: SiderustFrame::CIRS };
                let st = siderust_runtime_ephemeris_earth_barycentric_velocity(h, j, &mut v);
                match rust.try_earth_barycentric_velocity(t) {
                    Ok(w) => ensure!(st == OK && (v.vx, v.vy, v.vz) == (w.x().value(), w.y().value(), w.z().value()) && v.frame == SiderustFrame::EclipticMeanJ2000, "velocity {v:?}"),
                    Err(_) => ensure!(st == St::OutOfRange && v.vx == -7.0, "velocity outside the file: {st:?}"),
                }
            }
            unsafe { siderust_runtime_ephemeris_free(h) };
            Ok(hash | 1)
        });
    }
    // every prefix and every damaged byte: opened like the Rust reader opens it
    let step = ctx.pick(13, 1);
    for n in (0..bytes.len()).step_by(step) {
        for flip in [false, true] {
            l.case("runtime-damaged", &format!("{}={n}", if flip { "byte" } else { "prefix" }), || {
                let mut b = bytes.clone();
                if flip {
                    b[n] ^= 0x5a;
                } else {
                    b.truncate(n);
                }
                let mut h: *mut SiderustRuntimeEphemeris = null_mut();
                let st = siderust_runtime_ephemeris_load_bytes(b.as_ptr(), b.len(), &mut h);
                let r = guard(|| RuntimeEphemeris::from_bytes(&b).is_ok())?;
                ensure!((st == OK) == r && (st == OK) == !h.is_null(), "{st:?}, the Rust reader {}", if r { "accepts" } else { "refuses" });
                ensure!(st == OK || st == St::DataError, "refused with {st:?}");
                unsafe { siderust_runtime_ephemeris_free(h) };
                Ok(st as u64 + 1)
            });
        }
    }
    l.case("runtime", "missing file", || {
        let p = CString::new(dir.join("none.bsp").to_str().unwrap()).unwrap();
        let mut h: *mut SiderustRuntimeEphemeris = null_mut();
        let st = siderust_runtime_ephemeris_load_bsp(p.as_ptr(), &mut h);
        ensure!(st == St::DataError && h.is_null(), "{st:?}");
        Ok(1)
    });
    let _ = std::fs::remove_dir_all(&dir);
    ctx.merge(l);
}

// ------------------------------------------------------------------ phases, twilight, grids
fn phases(ctx: &Ctx) {
    let mut l = Local::default();
    let n = ctx.pick(60, 600);
    let sites = [site(2.35, 48.85, 35.0), site(-70.4, -24.6, 2600.0), site(0.0, 89.0, 0.0)];
    for i in 0..n {
        let j = 2_451_545.0 + 0.53 * i as f64 + 365.0 * (i % 5) as f64; // every phase of the Moon within one lunation
        l.case("phase", &format!("jd={j}"), || {
            let mut h = 1;
            for s in 0..=sites.len() {
                let mut g = SiderustMoonPhaseGeometry { phase_angle_rad: -7.0, illuminated_fraction: -7.0, elongation_rad: -7.0, waxing: 9, _pad: [0; 7] };
                let (st, w) = match s {
                    0 => (siderust_moon_phase_geocentric(j, &mut g), ph::moon_phase_geocentric::<Vsop87Ephemeris>(jd(j))),
                    _ => (siderust_moon_phase_topocentric(j, sites[s - 1], &mut g), ph::moon_phase_topocentric::<Vsop87Ephemeris>(jd(j), rsite(&sites[s - 1]))),
                };
                ensure!(st == OK, "refused: {st:?}");
                ensure!((g.phase_angle_rad, g.illuminated_fraction, g.elongation_rad, g.waxing == 1) == (w.phase_angle.value(), w.illuminated_fraction.value(), w.elongation.value(), w.waxing) && g.waxing < 2, "{g:?}, expected {w:?}");
                let mut lab = SiderustMoonPhaseLabel::NewMoon;
                ensure!(siderust_moon_phase_label(g, &mut lab) == OK, "no label");
                let wl = ph::MoonPhaseLabel::from_elongation(w.elongation.to::<qtty::unit::Degree>(), &Default::default());
                ensure!(format!("{lab:?}") == format!("{wl:?}"), "labelled {lab:?}, expected {wl:?}");
                h ^= g.elongation_rad.to_bits();
            }
            Ok(h)
        });
    }
    // labels over the whole circle and beyond
    for i in -720..=1440 {
        l.case("label", &format!("{i}/2 deg"), || {
            let e = (i as f64 * 0.5).to_radians();
            let g = SiderustMoonPhaseGeometry { phase_angle_rad: 0.0, illuminated_fraction: 0.0, elongation_rad: e, waxing: 0, _pad: [0; 7] };
            let mut lab = SiderustMoonPhaseLabel::NewMoon;
            ensure!(siderust_moon_phase_label(g, &mut lab) == OK, "no label");
            let wl = ph::MoonPhaseLabel::from_elongation(Radians::new(e).to::<qtty::unit::Degree>(), &Default::default());
            ensure!(format!("{lab:?}") == format!("{wl:?}"), "labelled {lab:?}, expected {wl:?}");
            Ok(lab as u64 + 1)
        });
    }
    for i in -1800..=1800 {
        let a = i as f64 * 0.05;
        l.case("twilight", &format!("{i}/20 deg"), || {
            let mut p = [SiderustTwilightPhase::Day; 2];
            ensure!(siderust_twilight_classification_deg(a, &mut p[0]) == OK && siderust_twilight_classification_rad(a.to_radians() + 1e-13, &mut p[1]) == OK, "refused");
            let w = siderust::event::solar::classification::twilight_classification(Degrees::new(a));
            ensure!(format!("{:?}", p[0]) == format!("{w:?}"), "{:?}, expected {w:?}", p[0]);
            // the radian form is asked a hair above, which only matters on a limit itself
            let w2 = siderust::event::solar::classification::twilight_classification(Degrees::new((a.to_radians() + 1e-13).to_degrees()));
            ensure!(format!("{:?}", p[1]) == format!("{w2:?}"), "{:?} from radians, expected {w2:?}", p[1]);
            Ok(p[0] as u64 + 1)
        });
    }
    ctx.merge(l);
    let mut items = vec![];
    for (a, d) in ctx.pick(vec![(60_000.0, 45.0), (51_544.5, 0.0), (58_849.0, 8.0)], vec![(60_000.0, 45.0), (51_544.5, 0.0), (58_849.0, 8.0), (59_000.0, 200.0), (61_000.3, 30.0)]) {
        for tol in [1e-9, 1e-6, 1e-3, 0.0, -1.0, f64::NAN, f64::INFINITY] {
            items.push((a, d, tol));
        }
        items.push((a, -3.0, 1e-6));
        items.push((f64::NAN, d, 1e-6));
        items.push((a, f64::INFINITY, 1e-6));
    }
    ctx.par(&items, |l, &(a, d, tol)| {
        l.case("phase-search", &format!("from={a},days={d},tol={tol}"), || {
            let w = win(a, a + d);
            let ok_w = a.is_finite() && d.is_finite() && d >= 0.0;
            let ok_t = tol.is_finite() && tol > 0.0;
            // an impossible window or tolerance is refused with its own status, never guessed at
            let verdict = |st: &str| -> Outcome {
                ensure!(st.contains("InvalidPeriod") || st.contains("InvalidArgument"), "{st}");
                Ok(hstr(st))
            };
            let ev = list(|o, n| siderust_find_phase_events(w, opts(tol), o, n), siderust_phase_events_free);
            let ks = [(0.1, 0.9), (0.5, 0.5), (0.99, 0.2)];
            let il: Vec<_> = ks.iter().map(|&(lo, hi)| [periods(|o, n| siderust_moon_illumination_above(w, lo, opts(tol), o, n)), periods(|o, n| siderust_moon_illumination_below(w, lo, opts(tol), o, n)), periods(|o, n| siderust_moon_illumination_range(w, lo, hi, opts(tol), o, n))]).collect();
            if !ok_w || !ok_t {
                let Err(e) = ev else { return Err(format!("an impossible request was answered with {:?}", ev.unwrap().len())) };
                let mut h = verdict(&e)?;
                for x in il.iter().flatten() {
                    match x {
                        Err(e) => h ^= verdict(e)?,
                        Ok(v) => return Err(format!("an impossible request was answered with {v:?}")),
                    }
                }
                return Ok(h | 1);
            }
            let r = ph::PhaseSearchOpts { time_tolerance: qtty::time::Days::new(tol), ..Default::default() };
            let we = ph::find_phase_events::<Vsop87Ephemeris>(rwin(&w), r);
            let ev = ev?;
            ensure!(ev.len() == we.len(), "{} events, expected {}", ev.len(), we.len());
            for (x, y) in ev.iter().zip(&we) {
                ensure!(x.mjd == y.mjd.raw().value() && format!("{:?}", x.kind) == format!("{:?}", y.kind), "{x:?}, expected {y:?}");
            }
            use siderust::qtty::IlluminationFractions as K;
            for (x, &(lo, hi)) in il.iter().zip(&ks) {
                let want = [ph::illumination_above::<Vsop87Ephemeris>(rwin(&w), K::new(lo), r), ph::illumination_below::<Vsop87Ephemeris>(rwin(&w), K::new(lo), r), ph::illumination_range::<Vsop87Ephemeris>(rwin(&w), K::new(lo), K::new(hi), r)];
                for (x, y) in x.iter().zip(want) {
                    let (x, y) = (x.clone()?, rperiods(y));
                    ensure!(x == y, "illumination: {x:?}, expected {y:?}");
                }
            }
            Ok(ev.len() as u64 + 1)
        });
        // the searches of the sky take the same options and windows
        l.case("search-refusals", &format!("from={a},days={d},tol={tol}"), || {
            let ok_w = a.is_finite() && d.is_finite() && d >= 0.0;
            let ok = ok_w && tol.is_finite() && tol > 0.0;
            if ok {
                return Ok(0);
            }
            let (s, o, w, op) = (subject_body(SiderustBody::Sun), site(0.0, 45.0, 0.0), win(a, a + d), opts(tol));
            let mut n = 0;
            for f in [siderust_above_threshold, siderust_below_threshold] {
                let e = periods(|p, c| f(s, o, w, 0.0, op, p, c));
                ensure!(matches!(&e, Err(m) if m.contains("InvalidPeriod") || m.contains("InvalidArgument")), "{e:?}");
                n += 1;
            }
            for f in [siderust_altitude_ranges, siderust_in_azimuth_range, siderust_outside_azimuth_range] {
                let e = periods(|p, c| f(s, o, w, 10.0, 20.0, op, p, c));
                ensure!(matches!(&e, Err(m) if m.contains("InvalidPeriod") || m.contains("InvalidArgument")), "{e:?}");
                n += 1;
            }
            let e = [list(|p, c| siderust_crossings(s, o, w, 0.0, op, p, c), siderust_crossings_free).err(), list(|p, c| siderust_culminations(s, o, w, op, p, c), siderust_culminations_free).err(), list(|p, c| siderust_azimuth_crossings(s, o, w, 90.0, op, p, c), siderust_azimuth_crossings_free).err(), list(|p, c| siderust_azimuth_extrema(s, o, w, op, p, c), siderust_azimuth_extrema_free).err()];
            for e in e {
                ensure!(matches!(&e, Some(m) if m.contains("InvalidPeriod") || m.contains("InvalidArgument")), "{e:?}");
                n += 1;
            }
            Ok(n)
        });
    });
    let mut l = Local::default();
    for ix in product(&[4, 4, 5, 5, 2]) {
        let (lo, hi) = ([-90.0, -10.0, 0.0, 30.0][ix[0]], [90.0, 60.0, 20.0, -5.0][ix[1]]);
        let (da, dz, eq) = ([1.0, 7.0, 10.0, 33.0, 180.0][ix[2]], [5.0, 12.5, 40.0, 90.0, 360.0][ix[3]], ix[4] == 1);
        l.case("grid", &format!("{lo}..{hi},steps={da}/{dz},equal={eq}"), || {
            use siderust::coordinates::SkyGrid;
            let g = if eq { SkyGrid::equal_area(Degrees::new(da), Degrees::new(dz)) } else { SkyGrid::with_steps(Degrees::new(da), Degrees::new(dz)) };
            let w: Vec<_> = g.with_alt_range(Degrees::new(lo), Degrees::new(hi)).iter_cells().collect();
            let v = list(|o, n| unsafe { siderust_sky_grid_cells(lo, hi, da, dz, eq, o, n) }, siderust_sky_grid_cells_free)?;
            ensure!(v.len() == w.len(), "{} cells, expected {}", v.len(), w.len());
            for (x, y) in v.iter().zip(&w) {
                ensure!((x.altitude_deg, x.azimuth_deg, x.solid_angle_sr) == (y.direction.polar.value(), y.direction.azimuth.value(), y.solid_angle.value()), "{x:?}");
            }
            Ok(v.len() as u64 + 1)
        });
    }
    ctx.merge(l);
}

// ------------------------------------------------------------------ satellites, transfers, propagation
const TLES: [(&str, &str); 3] = [
    ("1 25544U 98067A   08264.51782528 -.00002182  00000-0 -11606-4 0  2927", "2 25544  51.6416 247.4627 0006703 130.5360 325.0288 15.72125391563537"),
    ("1 00005U 58002B   00179.78495062  .00000023  00000-0  28098-4 0  4753", "2 00005  34.2682 348.7242 1859667 331.7664  19.3264 10.82419157413667"),
    ("1 04632U 70093B   04031.91070959 -.00000084  00000-0  10000-3 0  9955", "2 04632  11.4628 273.1101 1450506 207.6000 143.9350  1.20231981 44145"),
];
fn cs(s: &str) -> CString {
    CString::new(s).unwrap()
}
fn satellites(ctx: &Ctx) {
    use siderust::astro::sgp4::{GravityModel, Sgp4Propagator};
    let mut l = Local::default();
    for (ti, (a, b)) in TLES.iter().enumerate() {
        let tle = siderust::formats::tle::parse_tle(a, b).expect("a valid set");
        for g in 0..3 {
            l.case("sgp4", &format!("set={ti},model={g}"), || {
                let mut h = null_mut();
                ensure!(siderust_tle_parse(cs(a).as_ptr(), cs(b).as_ptr(), &mut h) == OK, "set refused");
                let mut id = 0;
                ensure!(siderust_tle_norad_id(h, &mut id) == OK && id == tle.norad_id.0, "number {id}");
                let mut p = null_mut();
                ensure!(siderust_sgp4_new(h, g, &mut p) == OK, "propagator refused");
                // the propagator does not need the set any more
                siderust_tle_free(h);
                let w = Sgp4Propagator::from_tle_with_model(&tle, [GravityModel::Wgs72, GravityModel::Wgs72Iau, GravityModel::Wgs84][g as usize]).unwrap();
                let (mut m, mut e) = (-1, 0.0);
                ensure!(siderust_sgp4_gravity_model(p, &mut m) == OK && m == g, "gravity model {m}");
                ensure!(siderust_sgp4_epoch_jd_utc(p, &mut e) == OK && e == w.epoch_jd_utc().raw().value(), "epoch {e}");
                let mut hash = 1;
                for k in -20..=60 {
                    let (mut r, mut v) = ([-7.0; 3], [-7.0; 3]);
                    let j = e + k as f64 * 0.37;
                    let st = siderust_sgp4_propagate_at(p, j, r.as_mut_ptr(), v.as_mut_ptr());
                    match w.propagate_at(tempoch::JulianDate::<tempoch::UTC>::try_new(qtty::Quantity::new(j)).unwrap()) {
                        Ok(s) => {
                            ensure!(st == OK && r == s.position().as_array().map(|x| x.value()) && v == s.velocity().as_array().map(|x| x.value()), "{k}: {r:?} {v:?} {st:?}");
                            hash ^= hf(&r);
                        }
                        Err(_) => ensure!(st == St::InvalidArgument && r == [-7.0; 3] && v == [-7.0; 3], "{k}: {st:?}"),
                    }
                }
                siderust_sgp4_free(p);
                Ok(hash | 1)
            });
        }
        // every damaged character: read or refused exactly as the Rust reader does
        for line in 0..2 {
            for at in 0..69 {
                for ch in ['0', '9', ' ', 'X', '-', '.', 'é'] {
                    l.case("tle-damaged", &format!("set={ti},line={},column={},{ch:?}", line + 1, at + 1), || {
                        let mut s = [a.to_string(), b.to_string()];
                        s[line].replace_range(at..at + 1, &ch.to_string());
                        let mut h = null_mut();
                        let st = siderust_tle_parse(cs(&s[0]).as_ptr(), cs(&s[1]).as_ptr(), &mut h);
                        let w = guard(|| siderust::formats::tle::parse_tle(s[0].trim(), s[1].trim()).ok())?;
                        ensure!((st == OK) == w.is_some() && (st == OK) == !h.is_null(), "{st:?}, Rust {}", if w.is_some() { "reads it" } else { "refuses" });
                        if let Some(w) = w {
                            let mut id = 0;
                            ensure!(siderust_tle_norad_id(h, &mut id) == OK && id == w.norad_id.0, "number {id}");
                        } else {
                            ensure!(st == St::InvalidArgument, "{st:?}");
                        }
                        siderust_tle_free(h);
                        Ok(st as u64 + 1)
                    });
                }
            }
        }
    }
    // orbit messages
    for n in 0..6usize {
        for segs in 0..3usize {
            for cut in [0, 1, 40, 200] {
                l.case("oem", &format!("states={n},segments={segs},cut={cut}"), || {
                    let mut t = String::from("CCSDS_OEM_VERS = 2.0\nCREATION_DATE = 2024-01-01T00:00:00\nORIGINATOR = X\n");
                    for s in 0..segs {
                        t += "META_START\nOBJECT_NAME = A\nOBJECT_ID = 2024-001A\nCENTER_NAME = EARTH\nREF_FRAME = EME2000\nTIME_SYSTEM = UTC\nSTART_TIME = 2024-01-01T00:00:00\nSTOP_TIME = 2024-01-02T00:00:00\nMETA_STOP\n";
                        for i in 0..n {
                            t += &format!("2024-01-01T{:02}:00:00.5 {}.25 {} -{}.5 1.5 -{}.25 0.125\n", i + 3 * s, 7000 + i, 10 * s, i, i);
                        }
                    }
                    t.truncate(t.len() - cut.min(t.len()));
                    let (mut p, mut c) = (null_mut(), 77);
                    let st = siderust_oem_parse_str(cs(&t).as_ptr(), &mut p, &mut c);
                    match guard(|| siderust::formats::ccsds::oem::read_oem(t.as_bytes()).ok())? {
                        Some(w) => {
                            let w: Vec<_> = w.segments.iter().flat_map(|s| s.states.iter()).collect();
                            ensure!(st == OK && c as usize == w.len(), "{st:?} with {c} states, expected {}", w.len());
                            for (i, s) in w.iter().enumerate() {
                                let x = unsafe { *p.add(i) };
                                ensure!(x.epoch_jd == s.epoch_jd && x.pos_km == s.position_km && x.vel_kms == s.velocity_km_s, "state {i}: {x:?}");
                            }
                            let before = live_bytes();
                            siderust_oem_states_free(p, c);
                            ensure!(before - live_bytes() == c as isize * size_of_pointee(p) as isize, "freeing {c} states returned {} bytes", before - live_bytes());
                        }
                        None => ensure!(st == St::InvalidArgument && p.is_null() && c == 77, "{st:?}"),
                    }
                    Ok(st as u64 + 1)
                });
            }
        }
    }
    // transfers
    for ix in product(&[4, 5, 6, 3, 2]) {
        let r1 = [[7000.0, 0.0, 0.0], [0.0, -8000.0, 500.0], [42_164.0, 10.0, 0.0], [0.0, 0.0, 0.0]][ix[0]];
        let r2 = [[0.0, 9000.0, 0.0], [-7100.0, 1.0, 200.0], [-14_000.0, 0.0, 0.0], [5000.0, 5000.0, 5000.0], [f64::NAN, 0.0, 1.0]][ix[1]];
        let (tof, mu) = ([0.0, 600.0, 3600.0, 20_000.0, -5.0, f64::NAN][ix[2]], [398_600.4418, 4902.8, 0.0][ix[3]]);
        for branch in [0, 1] {
            l.case("lambert", &format!("{ix:?},branch={branch}"), || {
                use affn::cartesian::Position;
                use keplerian::lambert::{lambert, LambertBranch};
                let (mut v1, mut v2, mut d) = ([-7.0; 3], [-7.0; 3], SiderustLambertDiagnostics { iterations: 77, residual: -7.0, revolutions: 77 });
                let st = siderust_lambert_solve(r1.as_ptr(), r2.as_ptr(), tof, mu, branch, v1.as_mut_ptr(), v2.as_mut_ptr(), if ix[4] == 0 { &mut d } else { null_mut() });
                let q = |r: [f64; 3]| Position::<(), affn::frames::ICRS, Kilometer>::new(r[0], r[1], r[2]);
                let w = guard(|| lambert(q(r1), q(r2), qtty::Second::new(tof), qtty::dynamics::GravitationalParameter::new(mu), if branch == 1 { LambertBranch::Retrograde } else { LambertBranch::Prograde }))?;
                match w {
                    Ok(w) => {
                        ensure!(st == OK && same3(v1, [w.v1.x().value(), w.v1.y().value(), w.v1.z().value()]) && same3(v2, [w.v2.x().value(), w.v2.y().value(), w.v2.z().value()]), "{v1:?} {v2:?} {st:?}");
                        ensure!(ix[4] == 1 || (d.iterations, d.revolutions) == (w.diagnostics.iterations, w.diagnostics.revolutions) && same(d.residual, w.diagnostics.residual), "{d:?}");
                    }
                    Err(_) => ensure!(st == St::InvalidArgument && v1 == [-7.0; 3] && v2 == [-7.0; 3] && d.iterations == 77, "{st:?}"),
                }
                Ok(st as u64 + 1)
            });
        }
    }
    // propagation
    for ix in product(&[4, 8, 3, 2]) {
        let s = [[7000.0, 0.0, 0.0, 0.0, 7.5, 0.5], [0.0, -42_164.0, 0.0, 3.07, 0.0, 0.1], [6500.0, 100.0, 50.0, 1.0, 10.0, 6.0], [0.0; 6]][ix[0]];
        let (dt, gm) = ([0.0, 1.0, -600.0, 5400.0, 86_400.0, f64::NAN, f64::INFINITY, 1e-3][ix[1]], [398_600.4418, 4902.8, 1.327e11][ix[2]]);
        l.case("propagate", &format!("state={},dt={dt},gm={gm},context={}", ix[0], ix[3]), || {
            use principia::integrators::dop853_propagate;
            use siderust::astro::dynamics as dy;
            let e = 2_460_000.25;
            let (mut a, mut p, mut c, mut b) = (null_mut(), null_mut(), null_mut(), null_mut());
            ensure!(siderust_orbit_state_new(e, s[0], s[1], s[2], s[3], s[4], s[5], &mut a) == OK, "state refused");
            let earth = ix[2] == 0;
            let st = if earth { siderust_propagator_two_body_earth_new(&mut p) } else { siderust_propagator_two_body_new(gm, &mut p) };
            ensure!(st == OK, "propagator refused");
            if ix[3] == 1 {
                ensure!(siderust_dynamics_context_new(&mut c) == OK, "context refused");
            }
            let st = siderust_propagator_propagate(p, a, dt, c, &mut b);
            let mu = if earth { dy::units::GM_EARTH } else { dy::units::GravitationalParameter::new(gm) };
            let r = dy::OrbitState::<Geocentric, GCRS>::new(jd(e).to_j2000s(), dy::Position::<GCRS>::new(s[0], s[1], s[2]), dy::Velocity::<GCRS>::new(s[3], s[4], s[5]));
            let get = |h: *const SiderustOrbitState| -> Result<[f64; 7], String> {
                let mut o = [0.0; 7];
                let q = o.as_mut_ptr();
                unsafe {
                    ensure!(siderust_orbit_state_position(h, q, q.add(1), q.add(2)) == OK && siderust_orbit_state_velocity(h, q.add(3), q.add(4), q.add(5)) == OK && siderust_orbit_state_epoch_jd(h, q.add(6)) == OK, "state not readable");
                }
                Ok(o)
            };
            let g = get(a)?;
            ensure!(g[..6] == s && g[6] == e, "state reads back as {g:?}");
            let w = if dt.is_finite() { guard(|| dop853_propagate(&dy::forces::TwoBody::new(mu), r, qtty::Second::new(dt), qtty::tolerances::IntegratorTolerances::uniform(1e-9, 1e-6, 1e-9), &dy::context::DynamicsContext::empty()).ok())? } else { None };
            let mut h = st as u64 + 1;
            match w {
                Some(w) => {
                    ensure!(st == SiderustDynamicsStatus::Ok && !b.is_null(), "refused: {st:?}");
                    let g = get(b)?;
                    let want = [w.position.x().value(), w.position.y().value(), w.position.z().value(), w.velocity.x().value(), w.velocity.y().value(), w.velocity.z().value()];
                    ensure!((0..6).all(|i| same(g[i], want[i])), "{g:?}, expected {want:?}");
                    ensure!(close(g[6], e + dt / 86_400.0, 1e-9), "epoch {}", g[6]);
                    // the two-body energy and angular momentum survive
                    if ix[0] < 3 && want.iter().all(|x| x.is_finite()) {
                        let en = |x: &[f64]| (x[3] * x[3] + x[4] * x[4] + x[5] * x[5]) / 2.0 - mu.value() / (x[0] * x[0] + x[1] * x[1] + x[2] * x[2]).sqrt();
                        let scale = mu.value() / (s[0] * s[0] + s[1] * s[1] + s[2] * s[2]).sqrt();
                        ensure!((en(&g) - en(&s)).abs() < 1e-5 * scale || gm > 1e6, "energy {} became {}", en(&s), en(&g));
                    }
                    h ^= hf(&g);
                }
                None => ensure!(st != SiderustDynamicsStatus::Ok && st != SiderustDynamicsStatus::InternalPanic && b.is_null(), "{st:?}"),
            }
            unsafe {
                siderust_orbit_state_free(a);
                siderust_orbit_state_free(b);
                siderust_propagator_free(p);
                siderust_dynamics_context_free(c);
            }
            Ok(h)
        });
    }
    ctx.merge(l);
}
fn same3(a: [f64; 3], b: [f64; 3]) -> bool {
    (0..3).all(|i| same(a[i], b[i]))
}

// ------------------------------------------------------------------ stars, planets, places, names
fn objects(ctx: &Ctx) {
    use siderust::bodies as sb;
    let mut l = Local::default();
    for (i, name) in STARS.iter().enumerate() {
        for form in 0..3 {
            let n = match form {
                0 => name.to_string(),
                1 => name.to_lowercase(),
                _ => name[..1].to_string() + &name[1..].to_lowercase(),
            };
            l.case("star", &n, || {
                let (mut h, w) = (null_mut(), star_ref(i));
                ensure!(siderust_star_catalog(cs(&n).as_ptr(), &mut h) == OK, "refused");
                let want = w.name.to_string();
                let c = |s: *const SiderustStar| [siderust_star_distance_ly(s), siderust_star_mass_solar(s), siderust_star_radius_solar(s), siderust_star_luminosity_solar(s)];
                ensure!(c(h) == [w.distance.value(), w.mass.value(), w.radius.value(), w.luminosity.value()], "{:?}", c(h));
                ensure!(c(null()).iter().all(|x| x.is_nan()), "numbers from no star");
                for len in 0..want.len() + 4 {
                    for wr in [false, true] {
                        let mut buf = vec![0x55u8; want.len() + 8];
                        let mut k = 999usize;
                        let st = siderust_star_name(h, buf.as_mut_ptr().cast(), len, if wr { &mut k } else { null_mut() });
                        if len > want.len() {
                            ensure!(st == OK && &buf[..want.len()] == want.as_bytes() && buf[want.len()] == 0, "name in {len} bytes: {st:?} {buf:?}");
                            ensure!(buf[len..].iter().all(|&b| b == 0x55), "wrote past the {len} bytes given");
                            ensure!(!wr || k == want.len(), "{k} bytes reported");
                        } else {
                            ensure!(st == St::InvalidArgument && buf.iter().all(|&b| b == 0x55) && (!wr || k == 999), "name in {len} bytes: {st:?}");
                        }
                    }
                }
                unsafe { siderust_star_free(h) };
                Ok(hstr(&want))
            });
        }
    }
    for n in ["", "VEGA ", "NOSTAR", "SUN", "VEG", "\u{130}"] {
        l.case("star", &format!("unknown {n:?}"), || {
            let mut h = null_mut();
            let st = siderust_star_catalog(cs(n).as_ptr(), &mut h);
            ensure!(st == St::UnknownStar && h.is_null(), "{st:?}");
            Ok(1)
        });
    }
    macro_rules! planets {
        ($($f:ident = $w:ident),*) => {$(
            l.case("planet", stringify!($w), || {
                let mut p = SiderustPlanet { mass_kg: 0.0, radius_km: 0.0, orbit: orbit_of(0) };
                ensure!($f(&mut p) == OK, "refused");
                let (w, o) = (&sb::$w, &sb::$w.orbit);
                ensure!(p.mass_kg == w.mass.value() && p.radius_km == w.radius.value(), "{p:?}");
                let want = [o.shape().semi_major_axis().value(), o.shape().eccentricity(), o.orientation().inclination().value(), o.orientation().longitude_of_ascending_node().value(), o.orientation().argument_of_periapsis().value(), o.mean_anomaly_at_epoch.value(), o.epoch.raw().value()];
                ensure!([p.orbit.semi_major_axis_au, p.orbit.eccentricity, p.orbit.inclination_deg, p.orbit.lon_ascending_node_deg, p.orbit.arg_periapsis_deg, p.orbit.mean_anomaly_deg, p.orbit.epoch_jd] == want, "{p:?}");
                // and its orbit, asked back, is where the Rust planet is
                for j in [2_451_545.0, 2_460_000.5] {
                    let mut c = blank();
                    let st = siderust_kepler_position_ex(p.orbit, 1, j, &mut c);
                    answer(st, &c, Some(xyz(&o.kepler_position(jd(j)))), true, (SiderustFrame::EclipticMeanJ2000, SiderustCenter::Heliocentric, SiderustLengthUnit::AU), 1e-7)?;
                }
                Ok(p.mass_kg.to_bits())
            });
        )*};
    }
    planets!(siderust_planet_mercury = MERCURY, siderust_planet_venus = VENUS, siderust_planet_earth = EARTH, siderust_planet_mars = MARS, siderust_planet_jupiter = JUPITER, siderust_planet_saturn = SATURN, siderust_planet_uranus = URANUS, siderust_planet_neptune = NEPTUNE);
    {
        use siderust::catalogs::observatories as ob;
        let all: [(&str, extern "C" fn(*mut SiderustGeodetict) -> St, Geodetic<ECEF>); 4] = [
            ("roque", siderust_observatory_roque_de_los_muchachos, ob::ROQUE_DE_LOS_MUCHACHOS.geodetic()),
            ("paranal", siderust_observatory_el_paranal, ob::EL_PARANAL.geodetic()),
            ("mauna kea", siderust_observatory_mauna_kea, ob::MAUNA_KEA.geodetic()),
            ("la silla", siderust_observatory_la_silla, ob::LA_SILLA_OBSERVATORY.geodetic()),
        ];
        for (n, f, w) in all {
            l.case("observatory", n, || {
                let mut g = site(0.0, 0.0, 0.0);
                ensure!(f(&mut g) == OK && (g.lon_deg, g.lat_deg, g.height_m) == (w.lon.value(), w.lat.value(), w.height.value()), "{g:?}");
                Ok(g.lon_deg.to_bits())
            });
        }
    }
    // targets give back what they were made of
    for k in 0..3 {
        for f in 0..6 {
            for pm in [false, true] {
                l.case("target", &format!("kind={k},frame={f},pm={pm}"), || {
                    let m = SiderustProperMotion { pm_ra_deg_yr: 1e-4, pm_dec_deg_yr: -2e-4, ra_convention: SiderustRaConvention::MuAlphaStar };
                    let d = target_data(k, FRAMES[[0, 5, 1, 2, 3, 4][f]], 77.5, -12.25, 2_455_000.5, pm.then_some(m));
                    let (mut h, mut e) = (null_mut(), 0.0);
                    ensure!(siderust_generic_target_create(d, &mut h) == OK, "refused");
                    let mut o = target_data(0, SiderustFrame::ICRS, 0.0, 0.0, 0.0, None);
                    ensure!(siderust_generic_target_get_data(h, &mut o) == OK && siderust_generic_target_epoch_jd(h, &mut e) == OK, "unreadable");
                    ensure!(e == 2_455_000.5 && o.epoch_jd == e && o.kind == d.kind && o.has_proper_motion == pm, "kind {:?}, epoch {e}", o.kind);
                    ensure!(!pm || (o.proper_motion.pm_ra_deg_yr, o.proper_motion.pm_dec_deg_yr, o.proper_motion.ra_convention) == (1e-4, -2e-4, SiderustRaConvention::MuAlphaStar), "proper motion {:?}", o.proper_motion);
                    unsafe {
                        let same = match k {
                            0 => format!("{:?}", o.coord.spherical_dir) == format!("{:?}", d.coord.spherical_dir),
                            1 => format!("{:?}", o.coord.spherical_pos) == format!("{:?}", d.coord.spherical_pos),
                            _ => format!("{:?}", o.coord.cartesian_pos) == format!("{:?}", d.coord.cartesian_pos),
                        };
                        ensure!(same, "the coordinates changed");
                        siderust_generic_target_free(h);
                    }
                    Ok(k as u64 + 1)
                });
            }
        }
    }
    for c in [SiderustRaConvention::MuAlpha, SiderustRaConvention::MuAlphaStar] {
        for with in [false, true] {
            l.case("target", &format!("icrs,{c:?},pm={with}"), || {
                let mut h = null_mut();
                let st = if with { siderust_generic_target_create_icrs_with_pm(10.5, 20.25, 2_455_000.5, 1e-4, -3e-4, c, &mut h) } else { siderust_generic_target_create_icrs(10.5, 20.25, 2_455_000.5, &mut h) };
                ensure!(st == OK, "refused");
                let mut o = target_data(1, SiderustFrame::ICRS, 0.0, 0.0, 0.0, None);
                ensure!(siderust_generic_target_get_data(h, &mut o) == OK, "unreadable");
                ensure!(o.kind == SiderustTargetCoordKind::SphericalDir && format!("{:?}", unsafe { o.coord.spherical_dir }) == format!("{:?}", dir(20.25, 10.5, SiderustFrame::ICRS)) && o.epoch_jd == 2_455_000.5 && o.has_proper_motion == with, "other data");
                ensure!(!with || (o.proper_motion.pm_ra_deg_yr, o.proper_motion.pm_dec_deg_yr, o.proper_motion.ra_convention) == (1e-4, -3e-4, c), "proper motion {:?}", o.proper_motion);
                unsafe { siderust_generic_target_free(h) };
                Ok(1)
            });
        }
    }
    // earth-orientation contexts
    for m in MODELS {
        l.case("context", &format!("{m:?}"), || {
            let c = CtxH::new(m);
            let mut o = SiderustEarthOrientationModel::Iau2000A;
            ensure!(siderust_context_get_model(c.0, &mut o) == OK && o == m, "{o:?}");
            Ok(m as u64 + 1)
        });
    }
    // names and codes
    macro_rules! named {
        ($t:ty, $all:expr) => {
            for v in $all {
                l.case("names", &format!("{}::{v:?}", stringify!($t)), || {
                    let s = v.as_str();
                    for x in [s.to_string(), s.to_uppercase()] {
                        ensure!(<$t>::parse_name(&x) == Some(v), "{x:?} is {:?}", <$t>::parse_name(&x));
                    }
                    // the variant's own name without separators
                    let bare = s.replace('_', "");
                    ensure!(<$t>::parse_name(&bare).is_none_or(|x| x == v), "{bare:?} is another one");
                    ensure!(<$t>::parse_name(&format!("{s} ")).is_none() && <$t>::parse_name("").is_none(), "a padded name is taken");
                    ensure!(<$t>::from_raw(v as i32) == Some(v), "code {} is {:?}", v as i32, <$t>::from_raw(v as i32));
                    Ok(hstr(s))
                });
            }
            l.case("codes", stringify!($t), || {
                let all: Vec<i32> = $all.iter().map(|v| *v as i32).collect();
                for r in (-70_000..70_000).chain([i32::MIN, i32::MAX]) {
                    let v = <$t>::from_raw(r);
                    ensure!(v.is_some() == all.contains(&r) && v.is_none_or(|v| v as i32 == r), "code {r} is {v:?}");
                }
                Ok(all.len() as u64)
            });
        };
    }
    named!(SiderustFrame, FRAMES);
    named!(SiderustCenter, CENTERS);
    named!(SiderustEarthOrientationModel, MODELS);
    named!(SiderustTwilightPhase, [SiderustTwilightPhase::Day, SiderustTwilightPhase::Civil, SiderustTwilightPhase::Nautical, SiderustTwilightPhase::Astronomical, SiderustTwilightPhase::Dark]);
    ctx.merge(l);
}

// ------------------------------------------------------------------ null pointers
fn or_null<T>(mask: u32, bit: u32, p: *mut T) -> *mut T {
    if mask >> bit & 1 == 1 {
        null_mut()
    } else {
        p
    }
}
fn or_nullc<T>(mask: u32, bit: u32, p: *const T) -> *const T {
    if mask >> bit & 1 == 1 {
        null()
    } else {
        p
    }
}
/// Buffers of every output a function may write, filled with a pattern.
struct Outs {
    b: Box<[[u64; 64]; 4]>,
}
const PAT: u64 = 0x5555_5555_5555_5555;
impl Outs {
    fn new() -> Outs {
        Outs { b: Box::new([[PAT; 64]; 4]) }
    }
    fn p<T>(&mut self, i: usize) -> *mut T {
        assert!(std::mem::size_of::<T>() <= 512);
        self.b[i].as_mut_ptr().cast()
    }
    fn clean(&self) -> bool {
        self.b.iter().flatten().all(|x| *x == PAT)
    }
    fn handle(&self, i: usize) -> usize {
        self.b[i][0] as usize
    }
}
struct World {
    star: *mut SiderustStar,
    target: *mut SiderustGenericTarget,
    ctx: *mut SiderustContext,
    eph: *mut SiderustRuntimeEphemeris,
    dyn_: *mut SiderustDynamicsContext,
    state: *mut SiderustOrbitState,
    prop: *mut SiderustPropagator,
    tle: *mut SiderustTle,
    sgp4: *mut SiderustSgp4,
    prep: SiderustPreparedOrbitHandle,
}
fn eph_bytes() -> Vec<u8> {
    let mk = |t: i32, c: i32, seed: u64, big: f64| cheb(t, c, 2, -3_456_000.0, 691_200.0, 10, 6, &|a, r, k| coef(seed, a, r, k) * if a < 3 { big } else { 1e-3 });
    daf("DAF/SPK", &[mk(10, 0, 1, 10.0), mk(3, 0, 2, 1000.0), mk(301, 3, 3, 5.0)], PLAIN)
}
impl World {
    fn empty() -> World {
        World { star: null_mut(), target: null_mut(), ctx: null_mut(), eph: null_mut(), dyn_: null_mut(), state: null_mut(), prop: null_mut(), tle: null_mut(), sgp4: null_mut(), prep: null_mut() }
    }
    fn make(&mut self, k: usize, bytes: &[u8]) -> St {
        match k {
            0 => star_made(30.0, 40.0, &mut self.star),
            1 => siderust_generic_target_create_icrs(10.0, 20.0, 2_451_545.0, &mut self.target),
            2 => siderust_context_create_with_model(SiderustEarthOrientationModel::Iau2000B, &mut self.ctx),
            3 => siderust_runtime_ephemeris_load_bytes(bytes.as_ptr(), bytes.len(), &mut self.eph),
            4 => siderust_dynamics_context_new(&mut self.dyn_),
            5 => siderust_orbit_state_new(2_460_000.25, 7000.0, 0.0, 0.0, 0.0, 7.5, 0.5, &mut self.state),
            6 => siderust_propagator_two_body_earth_new(&mut self.prop),
            7 => siderust_tle_parse(cs(TLES[0].0).as_ptr(), cs(TLES[0].1).as_ptr(), &mut self.tle),
            8 => siderust_sgp4_new(self.tle, 0, &mut self.sgp4),
            _ => siderust_prepared_orbit_create(orbit_of(1), &mut self.prep),
        }
    }
    fn free(&mut self, k: usize) {
        unsafe {
            match k {
                0 => siderust_star_free(std::mem::replace(&mut self.star, null_mut())),
                1 => siderust_generic_target_free(std::mem::replace(&mut self.target, null_mut())),
                2 => siderust_context_free(std::mem::replace(&mut self.ctx, null_mut())),
                3 => siderust_runtime_ephemeris_free(std::mem::replace(&mut self.eph, null_mut())),
                4 => siderust_dynamics_context_free(std::mem::replace(&mut self.dyn_, null_mut())),
                5 => siderust_orbit_state_free(std::mem::replace(&mut self.state, null_mut())),
                6 => siderust_propagator_free(std::mem::replace(&mut self.prop, null_mut())),
                7 => siderust_tle_free(std::mem::replace(&mut self.tle, null_mut())),
                8 => siderust_sgp4_free(std::mem::replace(&mut self.sgp4, null_mut())),
                _ => {
                    let p = std::mem::replace(&mut self.prep, null_mut());
                    if !p.is_null() {
                        siderust_prepared_orbit_destroy(p);
                    }
                }
            }
        }
    }
    fn has(&self, k: usize) -> bool {
        !match k {
            0 => self.star.is_null(),
            1 => self.target.is_null(),
            2 => self.ctx.is_null(),
            3 => self.eph.is_null(),
            4 => self.dyn_.is_null(),
            5 => self.state.is_null(),
            6 => self.prop.is_null(),
            7 => self.tle.is_null(),
            8 => self.sgp4.is_null(),
            _ => self.prep.is_null(),
        }
    }
    /// A reading of the handle: the status, and a hash of what it said.
    fn ask(&mut self, k: usize) -> (i32, u64) {
        let mut o = blank();
        let mut x = [0.0f64; 6];
        let p = x.as_mut_ptr();
        let s = site(2.0, 48.0, 0.0);
        unsafe {
            match k {
                0 => (siderust_altitude_at(subject_star(self.star), s, 60_000.0, p) as i32, hf(&x)),
                1 => (siderust_altitude_at(subject_target(self.target), s, 60_000.0, p) as i32, hf(&x)),
                2 => (siderust_cartesian_dir_transform_frame_with_context(1.0, 2.0, 3.0, SiderustFrame::ICRS, SiderustFrame::EquatorialTrueOfDate, 2_460_000.5, self.ctx, &mut o) as i32, hf(&cart(&o))),
                3 => (siderust_runtime_ephemeris_moon_geocentric(self.eph, 2_451_545.5, &mut o) as i32, hf(&cart(&o))),
                4 => {
                    // takes the ephemeris of the moment, if there is one
                    let st = siderust_dynamics_context_with_ephemeris(self.dyn_, self.eph);
                    (st as i32, 1)
                }
                5 => (siderust_orbit_state_position(self.state, p, p.add(1), p.add(2)) as i32, hf(&x)),
                6 => {
                    let mut b = null_mut();
                    let st = siderust_propagator_propagate(self.prop, self.state, 60.0, self.dyn_, &mut b);
                    if !b.is_null() {
                        siderust_orbit_state_position(b, p, p.add(1), p.add(2));
                        siderust_orbit_state_free(b);
                    }
                    (st as i32, hf(&x))
                }
                7 => {
                    let mut id = 0;
                    (siderust_tle_norad_id(self.tle, &mut id) as i32, id as u64)
                }
                8 => (siderust_sgp4_propagate_at(self.sgp4, 2_454_731.0, p, p.add(3)) as i32, hf(&x)),
                _ => (siderust_prepared_orbit_position(self.prep, 2_460_000.5, &mut o) as i32, hf(&cart(&o))),
            }
        }
    }
    fn needs(k: usize) -> &'static [usize] {
        [&[0][..], &[1], &[2], &[3], &[3, 4], &[5], &[5, 6], &[7], &[8], &[9]][k]
    }
}
fn nulls(ctx: &Ctx) {
    let bytes = eph_bytes();
    let mut l = Local::default();
    let mut w = World::empty();
    for k in 0..10 {
        assert_eq!(w.make(k, &bytes), OK);
    }
    let (w, n) = (&w, std::cell::Cell::new(0u64));
    let name = cs("VEGA");
    let text = cs("CCSDS_OEM_VERS = 2.0\nCREATION_DATE = 2024-01-01T00:00:00\nORIGINATOR = X\nMETA_START\nOBJECT_NAME = A\nOBJECT_ID = 2024-001A\nCENTER_NAME = EARTH\nREF_FRAME = EME2000\nTIME_SYSTEM = UTC\nSTART_TIME = 2024-01-01T00:00:00\nSTOP_TIME = 2024-01-02T00:00:00\nMETA_STOP\n2024-01-01T01:00:00 7000 0 0 0 7.5 0\n");
    let (l1, l2) = (cs(TLES[0].0), cs(TLES[0].1));
    let (s, o, win_, op) = (subject_body(SiderustBody::Sun), site(2.0, 48.0, 0.0), win(60_000.0, 60_000.5), opts(1e-6));
    let p3 = pos([1.0, 0.2, 0.1], SiderustFrame::EclipticMeanJ2000, SiderustCenter::Heliocentric, SiderustLengthUnit::AU);
    let bp = SiderustBodycentricParams { orbit: orbit_of(1), orbit_center: 1, _pad: [0; 7] };
    let r = [[7000.0, 0.0, 0.0], [0.0, 9000.0, 0.0]];
    // `req` names the pointers that must be there; the others may be missing
    macro_rules! f {
        ($f:ident, $k:expr, $req:expr, |$m:ident, $b:ident| $call:expr) => {
            f!($f, $k, $req, |$m, $b| $call, |_x: &Outs| ())
        };
        ($f:ident, $k:expr, $req:expr, |$m:ident, $b:ident| $call:expr, $free:expr) => {
            l.case("null", stringify!($f), || {
                for $m in 0..1u32 << $k {
                    let mut outs = Outs::new();
                    let st = {
                        let $b = &mut outs;
                        #[allow(unused_unsafe)]
                        unsafe { $call as i32 }
                    };
                    n.set(n.get() + 1);
                    if $m & $req != 0 {
                        ensure!(st == St::NullPointer as i32, "with pointers {:b} missing: status {st}", $m);
                        ensure!(outs.clean(), "with pointers {:b} missing: something was written", $m);
                    } else {
                        ensure!(st == 0, "with pointers {:b} missing: status {st}", $m);
                        ensure!(!outs.clean() || $m == (1 << $k) - 1, "nothing was written");
                        #[allow(clippy::redundant_closure_call)]
                        ($free)(&outs);
                    }
                }
                Ok(n.get())
            });
        };
    }
    macro_rules! outs_only {
        ($($f:ident),*) => {$( f!($f, 1, 1, |m, b| $f(or_null(m, 0, b.p(0)))); )*};
    }
    macro_rules! at {
        ($($f:ident),*) => {$( f!($f, 1, 1, |m, b| $f(2_451_545.5, or_null(m, 0, b.p(0)))); )*};
    }
    macro_rules! eph {
        ($($f:ident),*) => {$( f!($f, 2, 3, |m, b| $f(or_nullc(m, 0, w.eph), 2_451_545.5, or_null(m, 1, b.p(0)))); )*};
    }
    outs_only!(siderust_planet_mercury, siderust_planet_venus, siderust_planet_earth, siderust_planet_mars, siderust_planet_jupiter, siderust_planet_saturn, siderust_planet_uranus, siderust_planet_neptune, siderust_observatory_roque_de_los_muchachos, siderust_observatory_el_paranal, siderust_observatory_mauna_kea, siderust_observatory_la_silla);
    at!(siderust_vsop87_sun_barycentric, siderust_vsop87_earth_barycentric, siderust_vsop87_earth_heliocentric, siderust_vsop87_moon_geocentric, siderust_vsop87_mercury_heliocentric, siderust_vsop87_mercury_barycentric, siderust_vsop87_venus_heliocentric, siderust_vsop87_venus_barycentric, siderust_vsop87_mars_heliocentric, siderust_vsop87_mars_barycentric, siderust_vsop87_jupiter_heliocentric, siderust_vsop87_jupiter_barycentric, siderust_vsop87_saturn_heliocentric, siderust_vsop87_saturn_barycentric, siderust_vsop87_uranus_heliocentric, siderust_vsop87_uranus_barycentric, siderust_vsop87_neptune_heliocentric, siderust_vsop87_neptune_barycentric, siderust_moon_phase_geocentric);
    eph!(siderust_runtime_ephemeris_sun_barycentric, siderust_runtime_ephemeris_earth_barycentric, siderust_runtime_ephemeris_earth_heliocentric, siderust_runtime_ephemeris_earth_barycentric_velocity, siderust_runtime_ephemeris_moon_geocentric);
    f!(siderust_moon_phase_topocentric, 1, 1, |m, b| siderust_moon_phase_topocentric(2_451_545.5, o, or_null(m, 0, b.p(0))));
    let geom = SiderustMoonPhaseGeometry { phase_angle_rad: 1.0, illuminated_fraction: 0.5, elongation_rad: 1.0, waxing: 1, _pad: [0; 7] };
    f!(siderust_moon_phase_label, 1, 1, |m, b| siderust_moon_phase_label(geom, or_null(m, 0, b.p(0))));
    f!(siderust_twilight_classification_deg, 1, 1, |m, b| siderust_twilight_classification_deg(-3.0, or_null(m, 0, b.p(0))));
    f!(siderust_twilight_classification_rad, 1, 1, |m, b| siderust_twilight_classification_rad(-0.1, or_null(m, 0, b.p(0))));
    f!(siderust_geodetic_new, 1, 1, |m, b| siderust_geodetic_new(1.0, 2.0, 3.0, or_null(m, 0, b.p(0))));
    f!(siderust_geodetic_to_cartesian_ecef, 1, 1, |m, b| siderust_geodetic_to_cartesian_ecef(o, or_null(m, 0, b.p(0))));
    f!(siderust_altitude_at, 1, 1, |m, b| siderust_altitude_at(s, o, 60_000.0, or_null(m, 0, b.p(0))));
    f!(siderust_azimuth_at, 1, 1, |m, b| siderust_azimuth_at(s, o, 60_000.0, or_null(m, 0, b.p(0))));
    // subjects without their handle
    f!(siderust_altitude_at_star, 2, 3, |m, b| siderust_altitude_at(subject_star(or_nullc(m, 1, w.star)), o, 60_000.0, or_null(m, 0, b.p(0))));
    f!(siderust_altitude_at_target, 2, 3, |m, b| siderust_altitude_at(subject_target(or_nullc(m, 1, w.target)), o, 60_000.0, or_null(m, 0, b.p(0))));
    f!(siderust_azimuth_at_star, 2, 3, |m, b| siderust_azimuth_at(subject_star(or_nullc(m, 1, w.star)), o, 60_000.0, or_null(m, 0, b.p(0))));
    f!(siderust_azimuth_at_target, 2, 3, |m, b| siderust_azimuth_at(subject_target(or_nullc(m, 1, w.target)), o, 60_000.0, or_null(m, 0, b.p(0))));
    macro_rules! lists {
        ($($f:ident($($a:expr),*) free $g:ident),* $(,)?) => {$(
            f!($f, 2, 3, |m, b| $f(s, o, win_, $($a,)* op, or_null(m, 0, b.p(0)), or_null(m, 1, b.p(1))), |x: &Outs| unsafe { $g(x.handle(0) as *mut _, x.handle(1)) });
            l.case("null", concat!(stringify!($f), " of a missing star or target"), || {
                for x in [subject_star(null()), subject_target(null())] {
                    let mut outs = Outs::new();
                    let st = $f(x, o, win_, $($a,)* op, outs.p(0), outs.p(1));
                    ensure!(st == St::NullPointer && outs.clean(), "{st:?}");
                }
                Ok(1)
            });
        )*};
    }
    lists!(
        siderust_above_threshold(0.0) free siderust_periods_free,
        siderust_below_threshold(0.0) free siderust_periods_free,
        siderust_crossings(0.0) free siderust_crossings_free,
        siderust_culminations() free siderust_culminations_free,
        siderust_altitude_ranges(0.0, 20.0) free siderust_periods_free,
        siderust_azimuth_crossings(90.0) free siderust_azimuth_crossings_free,
        siderust_azimuth_extrema() free siderust_azimuth_extrema_free,
        siderust_in_azimuth_range(10.0, 90.0) free siderust_periods_free,
        siderust_outside_azimuth_range(10.0, 90.0) free siderust_periods_free,
    );
    f!(siderust_find_phase_events, 2, 3, |m, b| siderust_find_phase_events(win_, op, or_null(m, 0, b.p(0)), or_null(m, 1, b.p(1))), |x: &Outs| unsafe { siderust_phase_events_free(x.handle(0) as *mut _, x.handle(1)) });
    f!(siderust_moon_illumination_above, 2, 3, |m, b| siderust_moon_illumination_above(win_, 0.5, op, or_null(m, 0, b.p(0)), or_null(m, 1, b.p(1))), |x: &Outs| unsafe { siderust_periods_free(x.handle(0) as *mut _, x.handle(1)) });
    f!(siderust_moon_illumination_below, 2, 3, |m, b| siderust_moon_illumination_below(win_, 0.5, op, or_null(m, 0, b.p(0)), or_null(m, 1, b.p(1))), |x: &Outs| unsafe { siderust_periods_free(x.handle(0) as *mut _, x.handle(1)) });
    f!(siderust_moon_illumination_range, 2, 3, |m, b| siderust_moon_illumination_range(win_, 0.1, 0.9, op, or_null(m, 0, b.p(0)), or_null(m, 1, b.p(1))), |x: &Outs| unsafe { siderust_periods_free(x.handle(0) as *mut _, x.handle(1)) });
    f!(siderust_sky_grid_cells, 2, 3, |m, b| siderust_sky_grid_cells(0.0, 90.0, 30.0, 90.0, false, or_null(m, 0, b.p(0)), or_null(m, 1, b.p(1))), |x: &Outs| unsafe { siderust_sky_grid_cells_free(x.handle(0) as *mut _, x.handle(1)) });
    let (fi, ft) = (SiderustFrame::ICRS, SiderustFrame::EquatorialTrueOfDate);
    let t = 2_460_000.5;
    f!(siderust_spherical_dir_transform_frame, 1, 1, |m, b| siderust_spherical_dir_transform_frame(10.0, 20.0, fi, ft, t, or_null(m, 0, b.p(0))));
    f!(siderust_spherical_dir_transform_frame_with_context, 2, 3, |m, b| siderust_spherical_dir_transform_frame_with_context(10.0, 20.0, fi, ft, t, or_nullc(m, 1, w.ctx), or_null(m, 0, b.p(0))));
    f!(siderust_spherical_dir_to_horizontal, 1, 1, |m, b| siderust_spherical_dir_to_horizontal(10.0, 20.0, fi, t, o, or_null(m, 0, b.p(0))));
    f!(siderust_spherical_dir_to_horizontal_precise, 1, 1, |m, b| siderust_spherical_dir_to_horizontal_precise(10.0, 20.0, fi, t, t, o, or_null(m, 0, b.p(0))));
    f!(siderust_spherical_dir_to_horizontal_precise_with_context, 2, 3, |m, b| siderust_spherical_dir_to_horizontal_precise_with_context(10.0, 20.0, fi, t, t, o, or_nullc(m, 1, w.ctx), or_null(m, 0, b.p(0))));
    f!(siderust_cartesian_dir_transform_frame, 1, 1, |m, b| siderust_cartesian_dir_transform_frame(1.0, 2.0, 3.0, fi, ft, t, or_null(m, 0, b.p(0))));
    f!(siderust_cartesian_dir_transform_frame_with_context, 2, 3, |m, b| siderust_cartesian_dir_transform_frame_with_context(1.0, 2.0, 3.0, fi, ft, t, or_nullc(m, 1, w.ctx), or_null(m, 0, b.p(0))));
    f!(siderust_cartesian_pos_transform_frame, 1, 1, |m, b| siderust_cartesian_pos_transform_frame(p3, ft, t, or_null(m, 0, b.p(0))));
    f!(siderust_cartesian_pos_transform_frame_with_context, 2, 3, |m, b| siderust_cartesian_pos_transform_frame_with_context(p3, ft, t, or_nullc(m, 1, w.ctx), or_null(m, 0, b.p(0))));
    f!(siderust_cartesian_pos_transform_center, 1, 1, |m, b| siderust_cartesian_pos_transform_center(p3, SiderustCenter::Geocentric, t, or_null(m, 0, b.p(0))));
    f!(siderust_kepler_position_ex, 1, 1, |m, b| siderust_kepler_position_ex(orbit_of(0), 1, t, or_null(m, 0, b.p(0))));
    f!(siderust_mean_motion_position, 1, 1, |m, b| siderust_mean_motion_position(SiderustMeanMotionOrbit { semi_major_axis_au: 1.0, eccentricity: 0.1, inclination_deg: 1.0, lon_ascending_node_deg: 2.0, arg_periapsis_deg: 3.0, mean_motion_deg_per_day: 1.0, epoch_jd: t }, t, or_null(m, 0, b.p(0))));
    f!(siderust_conic_position, 1, 1, |m, b| siderust_conic_position(SiderustConicOrbit { periapsis_distance_au: 1.0, eccentricity: 1.1, inclination_deg: 1.0, lon_ascending_node_deg: 2.0, arg_periapsis_deg: 3.0, mean_anomaly_deg: 4.0, epoch_jd: t }, t, or_null(m, 0, b.p(0))));
    f!(siderust_prepared_orbit_create, 1, 1, |m, b| siderust_prepared_orbit_create(orbit_of(0), or_null(m, 0, b.p(0))), |x: &Outs| siderust_prepared_orbit_destroy(x.handle(0) as *mut _));
    f!(siderust_prepared_orbit_position, 2, 3, |m, b| siderust_prepared_orbit_position(or_null(m, 1, w.prep), t, or_null(m, 0, b.p(0))));
    l.case("null", "siderust_prepared_orbit_destroy", || {
        ensure!(siderust_prepared_orbit_destroy(null_mut()) == St::NullPointer, "accepted");
        Ok(1)
    });
    f!(siderust_to_bodycentric, 1, 1, |m, b| siderust_to_bodycentric(p3, bp, t, or_null(m, 0, b.p(0))));
    f!(siderust_from_bodycentric, 1, 1, |m, b| siderust_from_bodycentric(SiderustCartesianPos { center: SiderustCenter::Bodycentric, ..p3 }, bp, t, or_null(m, 0, b.p(0))));
    f!(siderust_star_catalog, 2, 3, |m, b| siderust_star_catalog(or_nullc(m, 1, name.as_ptr()), or_null(m, 0, b.p(0))), |x: &Outs| unsafe { siderust_star_free(x.handle(0) as *mut _) });
    let pm = SiderustProperMotion { pm_ra_deg_yr: 0.0, pm_dec_deg_yr: 0.0, ra_convention: SiderustRaConvention::MuAlpha };
    f!(siderust_star_create, 3, 3, |m, b| siderust_star_create(or_nullc(m, 1, name.as_ptr()), 1.0, 1.0, 1.0, 1.0, 2.0, 3.0, t, or_nullc(m, 2, &pm), or_null(m, 0, b.p(0))), |x: &Outs| unsafe { siderust_star_free(x.handle(0) as *mut _) });
    f!(siderust_star_name, 3, 3, |m, b| siderust_star_name(or_nullc(m, 1, w.star), or_null(m, 0, b.p(0)), 64, or_null(m, 2, b.p(1))));
    f!(siderust_context_create_default, 1, 1, |m, b| siderust_context_create_default(or_null(m, 0, b.p(0))), |x: &Outs| unsafe { siderust_context_free(x.handle(0) as *mut _) });
    f!(siderust_context_create_with_model, 1, 1, |m, b| siderust_context_create_with_model(SiderustEarthOrientationModel::Iau2006, or_null(m, 0, b.p(0))), |x: &Outs| unsafe { siderust_context_free(x.handle(0) as *mut _) });
    f!(siderust_context_get_model, 2, 3, |m, b| siderust_context_get_model(or_nullc(m, 1, w.ctx), or_null(m, 0, b.p(0))));
    f!(siderust_dynamics_context_new, 1, 1, |m, b| siderust_dynamics_context_new(or_null(m, 0, b.p(0))), |x: &Outs| unsafe { siderust_dynamics_context_free(x.handle(0) as *mut _) });
    l.case("null", "siderust_dynamics_context_with_*", || {
        extern "C" fn rho(_: f64, _: *mut std::ffi::c_void) -> f64 {
            1e-12
        }
        extern "C" fn cs(_: u32, _: u32, _: *mut std::ffi::c_void) -> f64 {
            0.0
        }
        let a = SiderustAtmosphereVtable { density: rho, user_data: null_mut() };
        for m in 0..4 {
            let want = if m == 0 { OK } else { St::NullPointer };
            ensure!(siderust_dynamics_context_with_ephemeris(or_null(m, 0, w.dyn_), or_nullc(m, 1, w.eph)) == want, "ephemeris, {m:b} missing");
            ensure!(siderust_dynamics_context_with_atmosphere(or_null(m, 0, w.dyn_), or_nullc(m, 1, &a)) == want, "atmosphere, {m:b} missing");
            for (gm, re) in [(398_600.4, 6378.0), (0.0, 6378.0), (-1.0, 6378.0), (f64::NAN, 6378.0), (398_600.4, 0.0), (398_600.4, f64::INFINITY)] {
                let g = SiderustGravityVtable { gm_km3_s2: gm, reference_radius_km: re, max_degree: 2, max_order: 2, c_normalized: cs, s_normalized: cs, user_data: null_mut() };
                let want = if m != 0 { want } else if gm > 0.0 && re > 0.0 && re.is_finite() { OK } else { St::InvalidArgument };
                ensure!(siderust_dynamics_context_with_gravity_field(or_null(m, 0, w.dyn_), or_nullc(m, 1, &g)) == want, "gravity field {gm} {re}, {m:b} missing");
            }
        }
        Ok(1)
    });
    f!(siderust_orbit_state_new, 1, 1, |m, b| siderust_orbit_state_new(t, 7000.0, 0.0, 0.0, 0.0, 7.5, 0.0, or_null(m, 0, b.p(0))), |x: &Outs| unsafe { siderust_orbit_state_free(x.handle(0) as *mut _) });
    f!(siderust_orbit_state_position, 4, 15, |m, b| siderust_orbit_state_position(or_nullc(m, 0, w.state), or_null(m, 1, b.p(0)), or_null(m, 2, b.p(1)), or_null(m, 3, b.p(2))));
    f!(siderust_orbit_state_velocity, 4, 15, |m, b| siderust_orbit_state_velocity(or_nullc(m, 0, w.state), or_null(m, 1, b.p(0)), or_null(m, 2, b.p(1)), or_null(m, 3, b.p(2))));
    f!(siderust_orbit_state_epoch_jd, 2, 3, |m, b| siderust_orbit_state_epoch_jd(or_nullc(m, 0, w.state), or_null(m, 1, b.p(0))));
    f!(siderust_propagator_two_body_earth_new, 1, 1, |m, b| siderust_propagator_two_body_earth_new(or_null(m, 0, b.p(0))), |x: &Outs| unsafe { siderust_propagator_free(x.handle(0) as *mut _) });
    f!(siderust_propagator_two_body_new, 1, 1, |m, b| siderust_propagator_two_body_new(4902.8, or_null(m, 0, b.p(0))), |x: &Outs| unsafe { siderust_propagator_free(x.handle(0) as *mut _) });
    f!(siderust_propagator_propagate, 4, 7, |m, b| siderust_propagator_propagate(or_nullc(m, 0, w.prop), or_nullc(m, 1, w.state), 60.0, or_nullc(m, 3, w.dyn_), or_null(m, 2, b.p(0))), |x: &Outs| unsafe { siderust_orbit_state_free(x.handle(0) as *mut _) });
    f!(siderust_lambert_solve, 5, 15, |m, b| siderust_lambert_solve(or_nullc(m, 0, r[0].as_ptr()), or_nullc(m, 1, r[1].as_ptr()), 3600.0, 398_600.4, 0, or_null(m, 2, b.p(0)), or_null(m, 3, b.p(1)), or_null(m, 4, b.p(2))));
    f!(siderust_oem_parse_str, 3, 7, |m, b| siderust_oem_parse_str(or_nullc(m, 0, text.as_ptr()), or_null(m, 1, b.p(0)), or_null(m, 2, b.p(1))), |x: &Outs| siderust_oem_states_free(x.handle(0) as *mut _, x.handle(1) as _));
    f!(siderust_tle_parse, 3, 7, |m, b| siderust_tle_parse(or_nullc(m, 0, l1.as_ptr()), or_nullc(m, 1, l2.as_ptr()), or_null(m, 2, b.p(0))), |x: &Outs| siderust_tle_free(x.handle(0) as *mut _));
    f!(siderust_tle_norad_id, 2, 3, |m, b| siderust_tle_norad_id(or_nullc(m, 0, w.tle), or_null(m, 1, b.p(0))));
    f!(siderust_sgp4_new, 2, 3, |m, b| siderust_sgp4_new(or_nullc(m, 0, w.tle), 0, or_null(m, 1, b.p(0))), |x: &Outs| siderust_sgp4_free(x.handle(0) as *mut _));
    f!(siderust_sgp4_gravity_model, 2, 3, |m, b| siderust_sgp4_gravity_model(or_nullc(m, 0, w.sgp4), or_null(m, 1, b.p(0))));
    f!(siderust_sgp4_epoch_jd_utc, 2, 3, |m, b| siderust_sgp4_epoch_jd_utc(or_nullc(m, 0, w.sgp4), or_null(m, 1, b.p(0))));
    f!(siderust_sgp4_propagate_at, 3, 7, |m, b| siderust_sgp4_propagate_at(or_nullc(m, 0, w.sgp4), 2_454_731.0, or_null(m, 1, b.p(0)), or_null(m, 2, b.p(1))));
    f!(siderust_runtime_ephemeris_load_bytes, 2, 3, |m, b| siderust_runtime_ephemeris_load_bytes(or_nullc(m, 0, bytes.as_ptr()), bytes.len(), or_null(m, 1, b.p(0))), |x: &Outs| unsafe { siderust_runtime_ephemeris_free(x.handle(0) as *mut _) });
    l.case("null", "siderust_runtime_ephemeris_load_bsp", || {
        let mut h: *mut SiderustRuntimeEphemeris = null_mut();
        ensure!(siderust_runtime_ephemeris_load_bsp(null(), &mut h) == St::NullPointer && siderust_runtime_ephemeris_load_bsp(name.as_ptr(), null_mut()) == St::NullPointer && h.is_null(), "accepted");
        Ok(1)
    });
    f!(siderust_generic_target_create, 1, 1, |m, b| siderust_generic_target_create(target_data(0, fi, 1.0, 2.0, t, None), or_null(m, 0, b.p(0))), |x: &Outs| unsafe { siderust_generic_target_free(x.handle(0) as *mut _) });
    f!(siderust_generic_target_create_icrs, 1, 1, |m, b| siderust_generic_target_create_icrs(1.0, 2.0, t, or_null(m, 0, b.p(0))), |x: &Outs| unsafe { siderust_generic_target_free(x.handle(0) as *mut _) });
    f!(siderust_generic_target_create_icrs_with_pm, 1, 1, |m, b| siderust_generic_target_create_icrs_with_pm(1.0, 2.0, t, 0.0, 0.0, SiderustRaConvention::MuAlpha, or_null(m, 0, b.p(0))), |x: &Outs| unsafe { siderust_generic_target_free(x.handle(0) as *mut _) });
    f!(siderust_generic_target_get_data, 2, 3, |m, b| siderust_generic_target_get_data(or_nullc(m, 0, w.target), or_null(m, 1, b.p(0))));
    f!(siderust_generic_target_epoch_jd, 2, 3, |m, b| siderust_generic_target_epoch_jd(or_nullc(m, 0, w.target), or_null(m, 1, b.p(0))));
    l.case("null", "freeing nothing", || {
        unsafe {
            siderust_star_free(null_mut());
            siderust_generic_target_free(null_mut());
            siderust_context_free(null_mut());
            siderust_runtime_ephemeris_free(null_mut());
            siderust_dynamics_context_free(null_mut());
            siderust_orbit_state_free(null_mut());
            siderust_propagator_free(null_mut());
            siderust_tle_free(null_mut());
            siderust_sgp4_free(null_mut());
            for n in [0, 1, usize::MAX] {
                siderust_periods_free(null_mut(), n);
                siderust_crossings_free(null_mut(), n);
                siderust_culminations_free(null_mut(), n);
                siderust_azimuth_crossings_free(null_mut(), n);
                siderust_azimuth_extrema_free(null_mut(), n);
                siderust_phase_events_free(null_mut(), n);
                siderust_sky_grid_cells_free(null_mut(), n);
                siderust_oem_states_free(null_mut(), n as _);
            }
        }
        Ok(1)
    });
    ctx.merge(l);
    ctx.note("null-pointer patterns", n.get());
}

// ------------------------------------------------------------------ instants that are none
fn no_instants(ctx: &Ctx) {
    let bytes = eph_bytes();
    let mut l = Local::default();
    let mut w = World::empty();
    for k in 0..10 {
        assert_eq!(w.make(k, &bytes), OK);
    }
    let w = &w;
    let name = cs("VEGA");
    let (s, o, op) = (subject_body(SiderustBody::Sun), site(2.0, 48.0, 0.0), opts(1e-6));
    let p3 = pos([1.0, 0.2, 0.1], SiderustFrame::EclipticMeanJ2000, SiderustCenter::Heliocentric, SiderustLengthUnit::AU);
    let (fi, ft) = (SiderustFrame::ICRS, SiderustFrame::EquatorialTrueOfDate);
    for t in [f64::NAN, f64::INFINITY, f64::NEG_INFINITY] {
        macro_rules! g {
            ($f:ident, |$b:ident| $call:expr) => {
                g!($f, "", |$b| $call)
            };
            ($f:ident, $x:expr, |$b:ident| $call:expr) => {
                l.case("no-instant", &format!("{}{},{t}", stringify!($f), $x), || {
                    let mut outs = Outs::new();
                    let st = {
                        let $b = &mut outs;
                        #[allow(unused_unsafe)]
                        unsafe { $call as i32 }
                    };
                    ensure!(st != OK as i32, "answered");
                    ensure!(st != St::InternalPanic as i32, "panicked");
                    ensure!(outs.clean(), "status {st}, but something was written");
                    Ok(st as u64)
                });
            };
        }
        macro_rules! at {
            ($($f:ident),* $(,)?) => {$( g!($f, |b| $f(t, b.p(0))); )*};
        }
        macro_rules! eph {
            ($($f:ident),* $(,)?) => {$( g!($f, |b| $f(w.eph, t, b.p(0))); )*};
        }
        at!(siderust_vsop87_sun_barycentric, siderust_vsop87_earth_barycentric, siderust_vsop87_earth_heliocentric, siderust_vsop87_moon_geocentric, siderust_vsop87_mercury_heliocentric, siderust_vsop87_mercury_barycentric, siderust_vsop87_venus_heliocentric, siderust_vsop87_venus_barycentric, siderust_vsop87_mars_heliocentric, siderust_vsop87_mars_barycentric, siderust_vsop87_jupiter_heliocentric, siderust_vsop87_jupiter_barycentric, siderust_vsop87_saturn_heliocentric, siderust_vsop87_saturn_barycentric, siderust_vsop87_uranus_heliocentric, siderust_vsop87_uranus_barycentric, siderust_vsop87_neptune_heliocentric, siderust_vsop87_neptune_barycentric, siderust_moon_phase_geocentric);
        eph!(siderust_runtime_ephemeris_sun_barycentric, siderust_runtime_ephemeris_earth_barycentric, siderust_runtime_ephemeris_earth_heliocentric, siderust_runtime_ephemeris_earth_barycentric_velocity, siderust_runtime_ephemeris_moon_geocentric);
        g!(siderust_moon_phase_topocentric, |b| siderust_moon_phase_topocentric(t, o, b.p(0)));
        for (i, x) in [s, subject_star(w.star), subject_target(w.target), subject_body(SiderustBody::Moon), subject_body(SiderustBody::Mars)].into_iter().enumerate() {
            g!(siderust_altitude_at, i, |b| siderust_altitude_at(x, o, t, b.p(0)));
            g!(siderust_azimuth_at, i, |b| siderust_azimuth_at(x, o, t, b.p(0)));
            for (e, v) in [(t, 60_000.0), (60_000.0, t), (t, t)].into_iter().enumerate() {
                let v = win(v.0, v.1);
                let k = format!("{i},{e}");
                g!(siderust_above_threshold, k, |b| siderust_above_threshold(x, o, v, 0.0, op, b.p(0), b.p(1)));
                g!(siderust_below_threshold, k, |b| siderust_below_threshold(x, o, v, 0.0, op, b.p(0), b.p(1)));
                g!(siderust_crossings, k, |b| siderust_crossings(x, o, v, 0.0, op, b.p(0), b.p(1)));
                g!(siderust_culminations, k, |b| siderust_culminations(x, o, v, op, b.p(0), b.p(1)));
                g!(siderust_altitude_ranges, k, |b| siderust_altitude_ranges(x, o, v, 0.0, 20.0, op, b.p(0), b.p(1)));
                g!(siderust_azimuth_crossings, k, |b| siderust_azimuth_crossings(x, o, v, 90.0, op, b.p(0), b.p(1)));
                g!(siderust_azimuth_extrema, k, |b| siderust_azimuth_extrema(x, o, v, op, b.p(0), b.p(1)));
                g!(siderust_in_azimuth_range, k, |b| siderust_in_azimuth_range(x, o, v, 10.0, 90.0, op, b.p(0), b.p(1)));
                g!(siderust_outside_azimuth_range, k, |b| siderust_outside_azimuth_range(x, o, v, 10.0, 90.0, op, b.p(0), b.p(1)));
            }
        }
        for (e, v) in [(t, 60_000.0), (60_000.0, t), (t, t)].into_iter().enumerate() {
            let v = win(v.0, v.1);
            g!(siderust_find_phase_events, e, |b| siderust_find_phase_events(v, op, b.p(0), b.p(1)));
            g!(siderust_moon_illumination_above, e, |b| siderust_moon_illumination_above(v, 0.5, op, b.p(0), b.p(1)));
            g!(siderust_moon_illumination_below, e, |b| siderust_moon_illumination_below(v, 0.5, op, b.p(0), b.p(1)));
            g!(siderust_moon_illumination_range, e, |b| siderust_moon_illumination_range(v, 0.1, 0.9, op, b.p(0), b.p(1)));
        }
        g!(siderust_spherical_dir_transform_frame, |b| siderust_spherical_dir_transform_frame(10.0, 20.0, fi, ft, t, b.p(0)));
        g!(siderust_spherical_dir_transform_frame_with_context, |b| siderust_spherical_dir_transform_frame_with_context(10.0, 20.0, fi, ft, t, w.ctx, b.p(0)));
        g!(siderust_spherical_dir_to_horizontal, |b| siderust_spherical_dir_to_horizontal(10.0, 20.0, fi, t, o, b.p(0)));
        for (e, v) in [(t, 2_460_000.5), (2_460_000.5, t)].into_iter().enumerate() {
            g!(siderust_spherical_dir_to_horizontal_precise, e, |b| siderust_spherical_dir_to_horizontal_precise(10.0, 20.0, fi, v.0, v.1, o, b.p(0)));
            g!(siderust_spherical_dir_to_horizontal_precise_with_context, e, |b| siderust_spherical_dir_to_horizontal_precise_with_context(10.0, 20.0, fi, v.0, v.1, o, w.ctx, b.p(0)));
        }
        g!(siderust_cartesian_dir_transform_frame, |b| siderust_cartesian_dir_transform_frame(1.0, 2.0, 3.0, fi, ft, t, b.p(0)));
        g!(siderust_cartesian_dir_transform_frame_with_context, |b| siderust_cartesian_dir_transform_frame_with_context(1.0, 2.0, 3.0, fi, ft, t, w.ctx, b.p(0)));
        g!(siderust_cartesian_pos_transform_frame, |b| siderust_cartesian_pos_transform_frame(p3, ft, t, b.p(0)));
        g!(siderust_cartesian_pos_transform_frame_with_context, |b| siderust_cartesian_pos_transform_frame_with_context(p3, ft, t, w.ctx, b.p(0)));
        g!(siderust_cartesian_pos_transform_center, |b| siderust_cartesian_pos_transform_center(p3, SiderustCenter::Geocentric, t, b.p(0)));
        for (e, (when, epoch)) in [(t, 2_451_545.0), (2_451_545.0, t)].into_iter().enumerate() {
            let orbit = SiderustOrbit { epoch_jd: epoch, ..orbit_of(1) };
            let bp = SiderustBodycentricParams { orbit, orbit_center: 1, _pad: [0; 7] };
            g!(siderust_kepler_position_ex, e, |b| siderust_kepler_position_ex(orbit, 1, when, b.p(0)));
            g!(siderust_mean_motion_position, e, |b| siderust_mean_motion_position(SiderustMeanMotionOrbit { semi_major_axis_au: 1.0, eccentricity: 0.1, inclination_deg: 1.0, lon_ascending_node_deg: 2.0, arg_periapsis_deg: 3.0, mean_motion_deg_per_day: 1.0, epoch_jd: epoch }, when, b.p(0)));
            g!(siderust_conic_position, e, |b| siderust_conic_position(SiderustConicOrbit { periapsis_distance_au: 1.0, eccentricity: 1.1, inclination_deg: 1.0, lon_ascending_node_deg: 2.0, arg_periapsis_deg: 3.0, mean_anomaly_deg: 4.0, epoch_jd: epoch }, when, b.p(0)));
            g!(siderust_to_bodycentric, e, |b| siderust_to_bodycentric(p3, bp, when, b.p(0)));
            g!(siderust_from_bodycentric, e, |b| siderust_from_bodycentric(SiderustCartesianPos { center: SiderustCenter::Bodycentric, ..p3 }, bp, when, b.p(0)));
        }
        g!(siderust_prepared_orbit_create, |b| siderust_prepared_orbit_create(SiderustOrbit { epoch_jd: t, ..orbit_of(0) }, b.p(0)));
        g!(siderust_prepared_orbit_position, |b| siderust_prepared_orbit_position(w.prep, t, b.p(0)));
        g!(siderust_star_create, |b| siderust_star_create(name.as_ptr(), 1.0, 1.0, 1.0, 1.0, 2.0, 3.0, t, null(), b.p(0)));
        g!(siderust_orbit_state_new, |b| siderust_orbit_state_new(t, 7000.0, 0.0, 0.0, 0.0, 7.5, 0.0, b.p(0)));
        g!(siderust_sgp4_propagate_at, |b| siderust_sgp4_propagate_at(w.sgp4, t, b.p(0), b.p(1)));
        for k in 0..3 {
            g!(siderust_generic_target_create, k, |b| siderust_generic_target_create(target_data(k, fi, 1.0, 2.0, t, None), b.p(0)));
        }
        g!(siderust_generic_target_create_icrs, |b| siderust_generic_target_create_icrs(1.0, 2.0, t, b.p(0)));
        g!(siderust_generic_target_create_icrs_with_pm, |b| siderust_generic_target_create_icrs_with_pm(1.0, 2.0, t, 0.0, 0.0, SiderustRaConvention::MuAlpha, b.p(0)));
        // a flight time, a gravitational parameter, a step
        let r = [[7000.0, 0.0, 0.0], [0.0, 9000.0, 0.0]];
        g!(siderust_lambert_solve, "tof", |b| siderust_lambert_solve(r[0].as_ptr(), r[1].as_ptr(), t, 398_600.4, 0, b.p(0), b.p(1), b.p(2)));
        g!(siderust_lambert_solve, "mu", |b| siderust_lambert_solve(r[0].as_ptr(), r[1].as_ptr(), 3600.0, t, 0, b.p(0), b.p(1), b.p(2)));
        g!(siderust_propagator_two_body_new, |b| siderust_propagator_two_body_new(t, b.p(0)));
        g!(siderust_propagator_propagate, |b| siderust_propagator_propagate(w.prop, w.state, t, null(), b.p(0)));
        for k in 0..4 {
            let mut a = [0.0, 90.0, 30.0, 90.0];
            a[k] = t;
            g!(siderust_sky_grid_cells, k, |b| with_alloc_cap(1 << 28, || siderust_sky_grid_cells(a[0], a[1], a[2], a[3], false, b.p(0), b.p(1))));
            g!(siderust_sky_grid_cells, format!("{k}equal-area"), |b| with_alloc_cap(1 << 28, || siderust_sky_grid_cells(a[0], a[1], a[2], a[3], true, b.p(0), b.p(1))));
        }
    }
    // dates far outside every table: an answer or a refusal, never a panic
    for t in [1e300, -1e300, 1e17, -1e17, 1e9, -1e9, 1e7, -1e7, 0.0, 2_436_000.5, 2_470_000.5, 2_500_000.5] {
        l.case("far-instant", &format!("siderust_sgp4_propagate_at,{t}"), || {
            let mut x = [0.0f64; 6];
            let p = x.as_mut_ptr();
            let st = unsafe { siderust_sgp4_propagate_at(w.sgp4, t, p, p.add(3)) };
            ensure!(st == OK && x.iter().all(|v| v.is_finite()) || st == St::InvalidArgument && x == [0.0; 6], "{st:?} {x:?}");
            Ok(hf(&x) ^ st as u64 | 1)
        });
    }
    ctx.merge(l);
}

// ------------------------------------------------------------------ handle histories
fn histories(ctx: &Ctx) {
    let bytes = eph_bytes();
    // what each handle says when it is alone
    let reference: Vec<(i32, u64)> = {
        let mut w = World::empty();
        for k in 0..10 {
            assert_eq!(w.make(k, &bytes), OK);
        }
        let r = (0..10).map(|k| w.ask(k)).collect();
        (0..10).for_each(|k| w.free(k));
        r
    };
    let depth = ctx.pick(3, 4);
    let items: Vec<usize> = (0..30).collect();
    ctx.par(&items, |l, &first| {
        let mut warm = World::empty();
        for k in 0..10 {
            warm.make(k, &bytes);
            warm.ask(k);
        }
        (0..10).for_each(|k| warm.free(k));
        for seq in sequences(30, depth - 1) {
            let seq: Vec<usize> = std::iter::once(first).chain(seq).collect();
            let mut steps = 0;
            l.case("handles", &format!("{seq:?}"), || {
                let live = live_bytes();
                let mut w = World::empty();
                let mut h = 1u64;
                for &op in &seq {
                    let (k, what) = (op % 10, op / 10);
                    steps += 1;
                    match what {
                        // creating over a live handle would leak by the caller's own doing
                        0 if !w.has(k) => {
                            let st = w.make(k, &bytes);
                            if k == 8 && !w.has(7) {
                                ensure!(st == St::NullPointer && !w.has(8), "a propagator of no element set: {st:?}");
                            } else {
                                ensure!(st == OK && w.has(k), "handle {k} refused: {st:?}");
                            }
                        }
                        0 => {}
                        1 => w.free(k),
                        _ => {
                            let (st, v) = w.ask(k);
                            if World::needs(k).iter().all(|&x| w.has(x)) {
                                ensure!((st, v) == reference[k], "handle {k} answers {st} {v:x}, alone it answers {:?}", reference[k]);
                            } else {
                                ensure!(st == St::NullPointer as i32, "a missing handle {k} answers {st}");
                            }
                            h = h.wrapping_mul(31) ^ v;
                        }
                    }
                }
                for k in 0..10 {
                    w.free(k);
                }
                drop(w);
                ensure!(live_bytes() == live, "{} bytes are still allocated after every handle is freed", live_bytes() - live);
                Ok(h | 1)
            });
            l.transitions += steps;
            l.states += 1;
        }
    });
}

/// What a compiled caller relies on: enumerator values and layouts as published, and conversions that keep their meaning.
fn abi(ctx: &Ctx) {
    let mut l = Local::default();
    for (n, got, want) in crate::abi::enums() {
        l.case("enumerator", n, || {
            ensure!(got == want, "is {got}, published as {want}");
            Ok(1)
        });
    }
    for (n, got, want) in crate::abi::layouts() {
        l.case("layout", n, || {
            ensure!(got == want, "size, alignment and offsets {got:?}, published as {want:?}");
            Ok(1)
        });
    }
    let orbit = |k: f64| SiderustOrbit { semi_major_axis_au: 1.5 + k, eccentricity: 0.2, inclination_deg: 3.0, lon_ascending_node_deg: 40.0, arg_periapsis_deg: 50.0, mean_anomaly_deg: 60.0 + k, epoch_jd: 2451545.0 + k };
    for c in 0..=255u8 {
        l.case("bodycentric", &format!("{c}"), || {
            use siderust::coordinates::centers::OrbitReferenceCenter as R;
            let o = orbit(c as f64);
            let p = SiderustBodycentricParams { orbit: o, orbit_center: c, _pad: [0; 7] };
            let r = p.try_to_rust().map_err(|e| format!("{e:?}"))?;
            let want = [R::Barycentric, R::Heliocentric, R::Geocentric, R::Heliocentric][c.min(3) as usize];
            ensure!(r.orbit_center == want, "centre {c} becomes {:?}", r.orbit_center);
            let b = SiderustBodycentricParams::from_rust(&r);
            ensure!(b.orbit_center == if c < 3 { c } else { 1 } && b._pad == [0; 7], "back to {}", b.orbit_center);
            ensure!(b.orbit.semi_major_axis_au == o.semi_major_axis_au && b.orbit.epoch_jd == o.epoch_jd && (b.orbit.mean_anomaly_deg - o.mean_anomaly_deg).abs() < 1e-9, "orbit {:?}", b.orbit);
            Ok(c as u64 + 1)
        });
    }
    ctx.merge(l);
}

pub fn run(tier: Tier) -> Ctx {
    let ctx = Ctx::new(
        "C31",
        "model_checking",
        tier,
        "every C entry point, over every frame, centre, unit, model, body and subject kind, every null-pointer pattern and every handle history to the depth, against the Rust functions it stands for",
    );
    abi(&ctx);
    tracking(&ctx);
    frames(&ctx);
    positions(&ctx);
    ephemerides(&ctx);
    phases(&ctx);
    satellites(&ctx);
    objects(&ctx);
    no_instants(&ctx);
    nulls(&ctx);
    histories(&ctx);
    ctx
}
