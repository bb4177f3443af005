//! C07: the centre graph. Every ordered pair of centres the library can shift between is an edge;
//! every route, in every frame, epoch and context explored, must give the same displacement, and
//! the ephemeris of the context must be the one that shows in it.
use crate::c06::BigEop;
use crate::core::*;
use siderust::astro::eop::{EopProvider, NullEop};
use siderust::astro::nutation::{Iau2000B, Iau2006A, NutationModel};
use siderust::bodies::solar_system::{Jupiter, Mars, Mercury, Neptune, Saturn, Uranus, Venus, PLUTO};
use siderust::coordinates::cartesian::{Position, Velocity};
use siderust::coordinates::centers::*;
use siderust::coordinates::frames::planetary::MarsFixed;
use siderust::coordinates::frames::*;
use siderust::coordinates::observation::ObserverState;
use siderust::coordinates::transform::centers::TransformCenter;
use siderust::coordinates::transform::context::{AstroContext, DefaultEphemeris};
use siderust::coordinates::transform::providers::{center_shift_as, frame_rotation_as, CenterShiftProvider, FrameRotationProvider};
use siderust::coordinates::transform::{PositionAstroExt, UsingEngine};
use siderust::ephemeris::Ephemeris;
use siderust::qtty::unit::{AstronomicalUnit, Day, Kilometer, Meter};
use siderust::qtty::{Degrees, Per, Quantity};
use siderust::time::JulianDate;
use std::marker::PhantomData;

type AU = AstronomicalUnit;
type V = [f64; 3];
const AU_KM: f64 = 149_597_870.7;

fn wob(jd: f64, k: f64, s: f64) -> V {
    let x = (jd - 2451545.0) * 0.01;
    [s * (x * k + 0.3).sin(), s * 0.9 * (x * k * 1.1 + 1.3).cos(), s * 0.35 * (x * k * 0.7 + 2.1).sin()]
}
macro_rules! synth {
    ($n:ident, $h:expr, $off:expr) => {
        /// A made-up ephemeris nothing like the real one, so that the source of a number shows.
        #[derive(Debug, Clone, Copy, Default)]
        pub struct $n;
        impl Ephemeris for $n {
            fn sun_barycentric(jd: JulianDate) -> Position<Barycentric, EclipticMeanJ2000, AU> {
                let v = wob(jd.raw().value() + $off, 0.31, 0.4 * $h);
                Position::new(v[0], v[1], v[2])
            }
            fn earth_barycentric(jd: JulianDate) -> Position<Barycentric, EclipticMeanJ2000, AU> {
                let v = wob(jd.raw().value() + $off, 1.7, 1.9 * $h);
                Position::new(v[0], v[1], v[2])
            }
            fn earth_heliocentric(jd: JulianDate) -> Position<Heliocentric, EclipticMeanJ2000, AU> {
                let (e, s) = (Self::earth_barycentric(jd), Self::sun_barycentric(jd));
                Position::new(e.x() - s.x(), e.y() - s.y(), e.z() - s.z())
            }
            fn earth_barycentric_velocity(jd: JulianDate) -> Velocity<EclipticMeanJ2000, Per<AU, Day>> {
                let v = wob(jd.raw().value() + $off, 1.7, 0.019 * $h);
                Velocity::new(v[1], -v[0], v[2])
            }
            fn moon_geocentric(jd: JulianDate) -> Position<Geocentric, EclipticMeanJ2000, Kilometer> {
                let v = wob(jd.raw().value() + $off, 23.0, 777_000.0 * $h);
                Position::new(v[0], v[1], v[2])
            }
        }
    };
}
synth!(SynA, 1.0, 0.0);
synth!(SynB, 1.6, 1234.5);

struct W<A, B, F>(PhantomData<(A, B, F)>);
trait Yes {
    fn shift<P: Ephemeris, E: EopProvider, N: NutationModel>(&self, jd: JulianDate, c: &AstroContext<P, E>) -> Option<V>;
    fn routes<P: Ephemeris, E: EopProvider, N: NutationModel>(&self, jd: JulianDate, c: &AstroContext<P, E>, v: V) -> Vec<(&'static str, V)>;
}
impl<A: ReferenceCenter<Params = ()>, B: ReferenceCenter<Params = ()>, F: ReferenceFrame> Yes for &W<A, B, F>
where
    (): CenterShiftProvider<A, B, F>,
    (): FrameRotationProvider<F, CIRS>,
    (): FrameRotationProvider<CIRS, F>,
{
    fn shift<P: Ephemeris, E: EopProvider, N: NutationModel>(&self, jd: JulianDate, c: &AstroContext<P, E>) -> Option<V> {
        Some(center_shift_as::<A, B, F, N, P, E>(jd, c).map(|q| q.value()))
    }
    fn routes<P: Ephemeris, E: EopProvider, N: NutationModel>(&self, jd: JulianDate, c: &AstroContext<P, E>, v: V) -> Vec<(&'static str, V)> {
        let m = c.with_model::<N>();
        let p = Position::<A, F, AU>::new(v[0], v[1], v[2]);
        let k = Position::<A, F, Kilometer>::new(v[0] * AU_KM, v[1] * AU_KM, v[2] * AU_KM);
        let a = |q: Position<B, F, AU>| [q.x().value(), q.y().value(), q.z().value()];
        let b = |q: Position<B, F, Kilometer>| [q.x().value() / AU_KM, q.y().value() / AU_KM, q.z().value() / AU_KM];
        let t = |q: Position<B, CIRS, AU>| a(PositionAstroExt::to_frame_with::<F, _>(&q, &jd, &m));
        vec![
            ("to_center_as", a(TransformCenter::<B, F, AU>::to_center_as::<P, E, N>(&p, (), jd, c))),
            ("to_center_with", a(TransformCenter::<B, F, AU>::to_center_with(&p, (), jd, &m))),
            ("to_center_with in km", b(TransformCenter::<B, F, Kilometer>::to_center_with(&k, (), jd, &m))),
            ("using to_center", a(p.using(&m).to_center::<B>(&jd))),
            ("to_with", t(PositionAstroExt::to_with::<B, CIRS, _>(&p, &jd, &m))),
            ("using to", t(p.using(&m).to::<B, CIRS>(&jd))),
        ]
    }
}
trait No {
    fn shift<P: Ephemeris, E: EopProvider, N: NutationModel>(&self, _: JulianDate, _: &AstroContext<P, E>) -> Option<V> {
        None
    }
    fn routes<P: Ephemeris, E: EopProvider, N: NutationModel>(&self, _: JulianDate, _: &AstroContext<P, E>, _: V) -> Vec<(&'static str, V)> {
        vec![]
    }
}
impl<A, B, F> No for W<A, B, F> {}

macro_rules! centres {
    ($($a:ident),*) => {
        const NAMES: &[&str] = &[$(stringify!($a)),*];
        centres!(@t [$($a),*] [$($a),*]);
    };
    (@t [$($a:ident),*] $all:tt) => {
        fn table<P: Ephemeris, E: EopProvider, N: NutationModel>(f: usize, jd: JulianDate, c: &AstroContext<P, E>) -> Vec<Vec<Option<V>>> {
            match f {
                0 => vec![$( centres!(@r $a $all EclipticMeanJ2000 jd c) ),*],
                1 => vec![$( centres!(@r $a $all ICRS jd c) ),*],
                2 => vec![$( centres!(@r $a $all EquatorialMeanJ2000 jd c) ),*],
                3 => vec![$( centres!(@r $a $all CIRS jd c) ),*],
                4 => vec![$( centres!(@r $a $all TIRS jd c) ),*],
                5 => vec![$( centres!(@r $a $all ITRF jd c) ),*],
                6 => vec![$( centres!(@r $a $all Galactic jd c) ),*],
                _ => vec![$( centres!(@r $a $all MarsFixed jd c) ),*],
            }
        }
        fn routes<P: Ephemeris, E: EopProvider, N: NutationModel>(f: usize, jd: JulianDate, c: &AstroContext<P, E>, v: V) -> Vec<Vec<Vec<(&'static str, V)>>> {
            match f {
                0 => vec![$( centres!(@s $a $all EclipticMeanJ2000 jd c v) ),*],
                _ => vec![$( centres!(@s $a $all EquatorialMeanJ2000 jd c v) ),*],
            }
        }
    };
    (@r $a:ident [$($b:ident),*] $f:ident $jd:ident $c:ident) => { vec![$( (&&W::<$a, $b, $f>(PhantomData)).shift::<P, E, N>($jd, $c) ),*] };
    (@s $a:ident [$($b:ident),*] $f:ident $jd:ident $c:ident $v:ident) => { vec![$( (&&W::<$a, $b, $f>(PhantomData)).routes::<P, E, N>($jd, $c, $v) ),*] };
}
centres!(Barycentric, Heliocentric, Geocentric, Mercurycentric, Venuscentric, Marscentric, Selenocentric, Jovicentric, Saturnocentric, Uranocentric, Neptunocentric, Plutocentric,
    SunEarthL1, SunEarthL2, SunEarthL3, SunEarthL4, SunEarthL5);
const FRAMES: [&str; 8] = ["EclipticMeanJ2000", "ICRS", "EquatorialMeanJ2000", "CIRS", "TIRS", "ITRF", "Galactic", "MarsFixed"];

fn sub(a: V, b: V) -> V {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
fn add(a: V, b: V) -> V {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
fn nrm(a: V) -> f64 {
    let r = (a[0] * a[0] + a[1] * a[1] + a[2] * a[2]).sqrt();
    if r.is_nan() { f64::INFINITY } else { r }
}
fn frame_rot<P: Ephemeris, E: EopProvider, N: NutationModel>(f: usize, jd: JulianDate, c: &AstroContext<P, E>) -> [[f64; 3]; 3] {
    macro_rules! r { ($($i:literal $f:ident),*) => { match f { $( $i => *frame_rotation_as::<EclipticMeanJ2000, $f, N, P, E>(jd, c).as_matrix(), )* _ => unreachable!() } } }
    r!(0 EclipticMeanJ2000, 1 ICRS, 2 EquatorialMeanJ2000, 3 CIRS, 4 TIRS, 5 ITRF, 6 Galactic, 7 MarsFixed)
}

fn graph<P: Ephemeris, E: EopProvider, N: NutationModel>(l: &mut Local, ctx: &str, jd: f64, c: &AstroContext<P, E>, part: usize) {
    let t = JulianDate::new(jd);
    let n = NAMES.len();
    let ecl = if part < FRAMES.len() { table::<P, E, N>(0, t, c) } else { vec![] };
    // Where each centre is, from the ephemeris of the context or the published theory.
    let p3 = |p: Position<Barycentric, EclipticMeanJ2000, AU>| [p.x().value(), p.y().value(), p.z().value()];
    let sun = p3(P::sun_barycentric(t));
    let earth = p3(P::earth_barycentric(t));
    let moon = P::moon_geocentric(t);
    let moon = add(earth, [moon.x().value() / AU_KM, moon.y().value() / AU_KM, moon.z().value() / AU_KM]);
    let pl = PLUTO.orbit.kepler_position(t);
    let pluto = add(sun, [pl.x().value(), pl.y().value(), pl.z().value()]);
    let whereis: Vec<Option<V>> = vec![
        Some([0.0; 3]), Some(sun), Some(earth),
        Some(p3(Mercury::vsop87e(t))), Some(p3(Venus::vsop87e(t))), Some(p3(Mars::vsop87e(t))), Some(moon), Some(p3(Jupiter::vsop87e(t))),
        Some(p3(Saturn::vsop87e(t))), Some(p3(Uranus::vsop87e(t))), Some(p3(Neptune::vsop87e(t))), Some(pluto),
        None, None, None, None, None,
    ];
    for i in (0..n).filter(|_| part == 0) {
        l.case("centre", &format!("{ctx}/{jd}/{}", NAMES[i]), || {
            let Some(s) = ecl[i][0] else { return Err("no shift to the barycentre".into()) };
            ensure!(s.iter().all(|x| x.is_finite()), "not finite: {s:?}");
            if let Some(w) = whereis[i] {
                ensure!(nrm(sub(s, w)) < 1e-11, "the centre is at {s:?}, the ephemeris of the context puts it at {w:?}");
            }
            Ok(hf(&s) | 1)
        });
    }
    for f in (0..FRAMES.len()).filter(|&f| f == part) {
        let tab = if f == 0 { ecl.clone() } else { table::<P, E, N>(f, t, c) };
        let rot = frame_rot::<P, E, N>(f, t, c);
        for i in 0..n {
            for j in 0..n {
                let Some(s) = tab[i][j] else { continue };
                l.case("shift", &format!("{ctx}/{jd}/{}/{}>{}", FRAMES[f], NAMES[i], NAMES[j]), || {
                    if i == j {
                        ensure!(s == [0.0; 3], "identity change shifts by {s:?}");
                    }
                    let Some(b) = tab[j][i] else { return Err("the opposite change is not available".into()) };
                    ensure!(nrm(add(s, b)) < 1e-13, "there and back differs by {:?}", add(s, b));
                    let e = ecl[i][j].ok_or("not available in the ecliptic frame")?;
                    ensure!(nrm(sub(s, crate::c06::app(&rot, e))) < 1e-11, "shift {s:?} is not the rotated ecliptic shift {e:?}");
                    let d = sub(tab[i][0].unwrap(), tab[j][0].unwrap());
                    ensure!(nrm(sub(s, d)) < 1e-12, "direct {s:?}, through the barycentre {d:?}");
                    for m in 0..n {
                        if let (Some(x), Some(y)) = (tab[i][m], tab[m][j]) {
                            ensure!(nrm(sub(s, add(x, y))) < 1e-12, "direct {s:?}, through {} {:?}", NAMES[m], add(x, y));
                        }
                    }
                    Ok(hf(&s) | 1)
                });
                l.transitions += 1;
            }
        }
    }
    for f in (0..2).filter(|&f| f + FRAMES.len() == part) {
        let tab = table::<P, E, N>(f * 2, t, c);
        for (vi, v) in [[0.7, -1.2, 0.4], [0.0, 0.0, 0.0], [-31.0, 12.0, 5.0], [1e-5, 2e-5, -4e-5]].into_iter().enumerate() {
            let rr = routes::<P, E, N>(f, t, c, v);
            for i in 0..n {
                for j in 0..n {
                    if rr[i][j].is_empty() {
                        continue;
                    }
                    l.case("api", &format!("{ctx}/{jd}/{f}/{vi}/{}>{}", NAMES[i], NAMES[j]), || {
                        let want = add(v, tab[i][j].unwrap());
                        for (name, got) in &rr[i][j] {
                            ensure!(nrm(sub(*got, want)) < 1e-12 * (1.0 + nrm(want)), "{name}: {got:?}, the shift gives {want:?}");
                        }
                        Ok(hf(&want) | 1)
                    });
                    l.traces += rr[i][j].len() as u64;
                }
            }
        }
    }
}

/// Outside the years of the embedded archive the Lagrange points come from the context's ephemeris:
/// L1..L3 lie on its Sun-Earth line, L4 and L5 make equilateral triangles with it.
fn lagrange(l: &mut Local, jd: f64) {
    fn go<P: Ephemeris>(l: &mut Local, n: &str, jd: f64) {
        let t = JulianDate::new(jd);
        let c: AstroContext<P, NullEop> = AstroContext::with_types();
        let p3 = |p: Position<Barycentric, EclipticMeanJ2000, AU>| [p.x().value(), p.y().value(), p.z().value()];
        let (sun, earth) = (p3(P::sun_barycentric(t)), p3(P::earth_barycentric(t)));
        let e = sub(earth, sun);
        let s = [
            ("L1", center_shift_as::<SunEarthL1, Barycentric, EclipticMeanJ2000, Iau2000B, P, NullEop>(t, &c), 0.990, 1.0),
            ("L2", center_shift_as::<SunEarthL2, Barycentric, EclipticMeanJ2000, Iau2000B, P, NullEop>(t, &c), 1.010, 1.0),
            ("L3", center_shift_as::<SunEarthL3, Barycentric, EclipticMeanJ2000, Iau2000B, P, NullEop>(t, &c), 1.0, -1.0),
            ("L4", center_shift_as::<SunEarthL4, Barycentric, EclipticMeanJ2000, Iau2000B, P, NullEop>(t, &c), 1.0, 0.5),
            ("L5", center_shift_as::<SunEarthL5, Barycentric, EclipticMeanJ2000, Iau2000B, P, NullEop>(t, &c), 1.0, 0.5),
        ];
        for (name, shift, ratio, cosine) in s {
            l.case("lagrange", &format!("{n}/{jd}/{name}"), || {
                let d = sub(shift.map(|q| q.value()), sun);
                let (r, cs) = (nrm(d) / nrm(e), (0..3).map(|k| d[k] * e[k]).sum::<f64>() / nrm(d) / nrm(e));
                // A made-up ephemeris moves as no two bodies do: only the line itself is meaningful for it.
                if n == "default" {
                    ensure!((r - ratio).abs() < 0.02 && (cs - cosine).abs() < 0.005, "at {r} of the Sun-Earth distance, cosine {cs} from the Earth");
                }
                ensure!(cosine.abs() < 0.9 || cs.abs() > 0.99, "at {r} of the Sun-Earth distance, cosine {cs} from the Earth");
                Ok(hf(&d) | 1)
            });
        }
    }
    go::<DefaultEphemeris>(l, "default", jd);
    go::<SynA>(l, "synA", jd);
    go::<SynB>(l, "synB", jd);
}

// ---------------------------------------------------------------- body-centred positions
fn bodies() -> Vec<(&'static str, BodycentricParams)> {
    use siderust::astro::orbit::KeplerianOrbit;
    let o = |a: f64, e: f64, i: f64, ra: f64, w: f64, m: f64| KeplerianOrbit::new(Quantity::new(a), e, Degrees::new(i), Degrees::new(ra), Degrees::new(w), Degrees::new(m), JulianDate::new(2451545.0));
    let mut v = vec![];
    for (on, orb) in [("round", o(1.5, 0.0, 0.0, 0.0, 0.0, 10.0)), ("tilted", o(2.7, 0.4, 40.0, 200.0, 75.0, 300.0)), ("small", o(4.2e-5, 0.02, 98.0, 12.0, 90.0, 0.0))] {
        for (cn, mk) in [("helio", BodycentricParams::heliocentric(orb)), ("geo", BodycentricParams::geocentric(orb)), ("bary", BodycentricParams { orbit_center: OrbitReferenceCenter::Barycentric, ..BodycentricParams::heliocentric(orb) })] {
            v.push((Box::leak(format!("{on}-{cn}").into_boxed_str()) as &str, mk));
        }
    }
    v
}
fn bodycentric<P: Ephemeris, E: EopProvider, N: NutationModel>(l: &mut Local, ctx: &str, jd: f64, c: &AstroContext<P, E>) {
    let t = JulianDate::new(jd);
    let p3 = |p: Position<Barycentric, EclipticMeanJ2000, AU>| [p.x().value(), p.y().value(), p.z().value()];
    let (sun, earth) = (p3(P::sun_barycentric(t)), p3(P::earth_barycentric(t)));
    macro_rules! run {
        ($C:ident, $F:ident, $at:expr, $bn:expr, $b:expr) => {
            for (vi, v) in [[0.3, -0.8, 0.2], [1e-4, 3e-5, -2e-5]].into_iter().enumerate() {
                l.case("bodycentric", &format!("{ctx}/{jd}/{}/{}/{}/{vi}", stringify!($C), stringify!($F), $bn), || {
                    let rot = *frame_rotation_as::<EclipticMeanJ2000, $F, N, P, E>(t, c).as_matrix();
                    let k = $b.orbit.position_with_mu(t, $b.mu);
                    let body = add([k.x().value(), k.y().value(), k.z().value()], match $b.orbit_center { OrbitReferenceCenter::Barycentric => [0.0; 3], OrbitReferenceCenter::Heliocentric => sun, OrbitReferenceCenter::Geocentric => earth });
                    let p = Position::<$C, $F, AU>::new(v[0], v[1], v[2]);
                    let q: Position<Bodycentric, $F, AU> = p.to_center_as::<P, E, N>($b, t, c);
                    let got = [q.x().value(), q.y().value(), q.z().value()];
                    let want = sub(v, crate::c06::app(&rot, sub(body, $at)));
                    ensure!(nrm(sub(got, want)) < 1e-9 * (1.0 + nrm(want)), "seen from the body: {got:?}, its orbit and the ephemeris of the context give {want:?}");
                    ensure!(*q.center_params() == $b, "the body's parameters were lost");
                    let m = c.with_model::<N>();
                    let q2: Position<Bodycentric, $F, AU> = p.to_center_with($b, t, &m);
                    ensure!([q2.x().value(), q2.y().value(), q2.z().value()] == got, "to_center_with gives another result");
                    let g: Position<Geocentric, $F, AU> = q.to_center_as::<P, E, N>((), t, c);
                    let g = [g.x().value(), g.y().value(), g.z().value()];
                    let wg = add(v, crate::c06::app(&rot, sub($at, earth)));
                    ensure!(nrm(sub(g, wg)) < 1e-9 * (1.0 + nrm(wg)), "back at the Earth's centre: {g:?}, directly {wg:?}");
                    Ok(hf(&got) | 1)
                });
            }
        };
    }
    for (bn, b) in bodies() {
        run!(Geocentric, EclipticMeanJ2000, earth, bn, b);
        run!(Geocentric, EquatorialMeanJ2000, earth, bn, b);
        run!(Geocentric, ICRS, earth, bn, b);
        run!(Heliocentric, EclipticMeanJ2000, sun, bn, b);
        run!(Heliocentric, EquatorialMeanJ2000, sun, bn, b);
        run!(Heliocentric, ICRS, sun, bn, b);
        run!(Barycentric, EclipticMeanJ2000, [0.0; 3], bn, b);
        run!(Barycentric, EquatorialMeanJ2000, [0.0; 3], bn, b);
        run!(Barycentric, ICRS, [0.0; 3], bn, b);
    }
}

// ---------------------------------------------------------------- observers
pub fn sites() -> Vec<(&'static str, Geodetic<ECEF>)> {
    let s = |lat: f64, lon: f64, h: f64| Geodetic::<ECEF>::new(Degrees::new(lon), Degrees::new(lat), Quantity::<Meter>::new(h));
    vec![("roque", s(28.7624, -17.8792, 2396.0)), ("equator", s(0.0, 0.0, 0.0)), ("pole", s(90.0, 0.0, 10.0)), ("south", s(-70.3, 123.4, 3200.0)), ("east", s(51.0, 179.9, -20.0)), ("low", s(10.0, -90.0, 500_000.0))]
}
/// Geodetic to Earth-fixed coordinates on the WGS84 ellipsoid, in metres.
pub fn ecef(site: &Geodetic<ECEF>) -> V {
    let (a, f) = (6378137.0, 1.0 / 298.257223563);
    let e2: f64 = f * (2.0 - f);
    let (la, lo, h) = (site.lat.value().to_radians(), site.lon.value().to_radians(), site.height.value());
    let nn = a / (1.0 - e2 * la.sin().powi(2)).sqrt();
    [(nn + h) * la.cos() * lo.cos(), (nn + h) * la.cos() * lo.sin(), (nn * (1.0 - e2) + h) * la.sin()]
}
fn observers<P: Ephemeris, E: EopProvider, N: NutationModel>(l: &mut Local, ctx: &str, jd: f64, c: &AstroContext<P, E>) {
    let t = JulianDate::new(jd);
    let m = c.with_model::<N>();
    for (sn, site) in sites() {
        let fixed = ecef(&site);
        let vecs: [V; 3] = [[0.0; 3], [384_400.0, -12_000.0, 30_000.0], [-7000.0, 900.0, 10.0]];
        for (vi, v) in vecs.into_iter().enumerate() {
            macro_rules! run {
                ($F:ident) => {
                    l.case("observer", &format!("{ctx}/{jd}/{sn}/{vi}/{}", stringify!($F)), || {
                        let p = Position::<Geocentric, $F, Kilometer>::new(v[0], v[1], v[2]);
                        let q: Position<Topocentric, $F, Kilometer> = p.to_center_as::<P, E, N>(site, t, c);
                        let q2: Position<Topocentric, $F, Kilometer> = p.to_center_with(site, t, &m);
                        let a = |q: &Position<Topocentric, $F, Kilometer>| [q.x().value(), q.y().value(), q.z().value()];
                        ensure!(a(&q) == a(&q2), "to_center_with gives another result");
                        ensure!(*q.center_params() == site, "the site was lost");
                        let q3 = siderust::coordinates::transform::to_topocentric_with(&p, site, t, &m);
                        ensure!(a(&q) == a(&q3), "to_topocentric_with gives another result");
                        let off = sub(v, a(&q));
                        let want = nrm(fixed) / 1000.0;
                        ensure!((nrm(off) - want).abs() < 1e-6, "the observer is {} km from the Earth's centre, the ellipsoid says {want}", nrm(off));
                        let g: Position<Geocentric, $F, Kilometer> = q.to_center_as::<P, E, N>((), t, c);
                        ensure!(nrm(sub([g.x().value(), g.y().value(), g.z().value()], v)) < 1e-6, "there and back gives {g:?}");
                        // The offset is the same whatever is being looked at.
                        let o: Position<Topocentric, $F, Kilometer> = Position::<Geocentric, $F, Kilometer>::new(0.0, 0.0, 0.0).to_center_as::<P, E, N>(site, t, c);
                        ensure!(nrm(add(a(&o), off)) < 1e-6, "the observer's place depends on the target");
                        // The place in this frame is the J2000 place rotated.
                        let e: Position<Topocentric, EquatorialMeanJ2000, Kilometer> = Position::<Geocentric, EquatorialMeanJ2000, Kilometer>::new(0.0, 0.0, 0.0).to_center_as::<P, E, N>(site, t, c);
                        let rot = *frame_rotation_as::<EquatorialMeanJ2000, $F, N, P, E>(t, c).as_matrix();
                        let w = crate::c06::app(&rot, [e.x().value(), e.y().value(), e.z().value()]);
                        ensure!(nrm(sub(w, a(&o))) < 1e-5, "observer's place {:?}, rotated from J2000 {w:?}", a(&o));
                        Ok(hf(&a(&q)) | 1)
                    });
                };
            }
            run!(EquatorialMeanJ2000);
            run!(ICRS);
            run!(EclipticMeanJ2000);
        }
        // Height above the true equator: the part of the site vector along the rotation axis does not depend on the time of day.
        l.case("axis", &format!("{ctx}/{jd}/{sn}"), || {
            let o: Position<Topocentric, EquatorialMeanJ2000, Kilometer> = Position::<Geocentric, EquatorialMeanJ2000, Kilometer>::new(0.0, 0.0, 0.0).to_center_as::<P, E, N>(site, t, c);
            let rot = *frame_rotation_as::<EquatorialMeanJ2000, EquatorialTrueOfDate, N, P, E>(t, c).as_matrix();
            let w = crate::c06::app(&rot, [-o.x().value(), -o.y().value(), -o.z().value()]);
            // polar motion tilts the site by up to half an arcsecond
            ensure!((w[2] - fixed[2] / 1000.0).abs() < 6400.0 * 0.8 / 206265.0, "height above the equator of date {} km, {} km on the ellipsoid", w[2], fixed[2] / 1000.0);
            Ok(hf(&w) | 1)
        });
        // The ephemeris of the context moves the observer around the Sun.
        l.case("velocity", &format!("{ctx}/{jd}/{sn}"), || {
            let au_d = |s: &ObserverState| [s.velocity().x().value(), s.velocity().y().value(), s.velocity().z().value()];
            let a = au_d(&ObserverState::topocentric_with(&site, t, &m));
            let a2 = au_d(&ObserverState::topocentric_with_ctx::<P, E, N>(&site, t, c));
            ensure!(a == a2, "the two entry points disagree");
            let e = P::earth_barycentric_velocity(t);
            let rot = *frame_rotation_as::<EclipticMeanJ2000, EquatorialMeanJ2000, N, P, E>(t, c).as_matrix();
            let w = crate::c06::app(&rot, [e.x().value(), e.y().value(), e.z().value()]);
            let spin = sub(a, w);
            let (wx, au) = (7.2921150e-5 * (fixed[0].hypot(fixed[1])), 149_597_870_700.0 / 86400.0);
            ensure!((nrm(spin) * au - wx).abs() < 0.01, "the observer is carried round at {} m/s, Earth rotation gives {wx}", nrm(spin) * au);
            let o: Position<Topocentric, EquatorialMeanJ2000, Kilometer> = Position::<Geocentric, EquatorialMeanJ2000, Kilometer>::new(0.0, 0.0, 0.0).to_center_as::<P, E, N>(site, t, c);
            let pos = [-o.x().value(), -o.y().value(), -o.z().value()];
            let along = (0..3).map(|k| spin[k] * pos[k]).sum::<f64>() / nrm(pos) * au;
            ensure!(along.abs() < 0.01, "the diurnal velocity has {along} m/s along the site vector");
            Ok(hf(&a) | 1)
        });
    }
}
/// Site place in the inertial frame against the frame chain of the library itself.
fn site_chain(l: &mut Local) {
    let c: AstroContext<DefaultEphemeris, NullEop> = AstroContext::with_types();
    for (sn, site) in sites() {
        for jd in [2451545.0, 2455000.3, 2458849.77, 2460310.5] {
            l.case("site", &format!("{sn}/{jd}"), || {
                let t = JulianDate::new(jd);
                let o: Position<Topocentric, EquatorialMeanJ2000, Kilometer> = Position::<Geocentric, EquatorialMeanJ2000, Kilometer>::new(0.0, 0.0, 0.0).to_center_as::<_, _, Iau2006A>(site, t, &c);
                let rot = *frame_rotation_as::<ECEF, EquatorialMeanJ2000, Iau2006A, DefaultEphemeris, NullEop>(t, &c).as_matrix();
                let w = crate::c06::app(&rot, ecef(&site).map(|x| x / 1000.0));
                let d = nrm(add([o.x().value(), o.y().value(), o.z().value()], w));
                ensure!(d < 0.01, "the observer is {d:.3} km from where the Earth-fixed frame puts the site");
                Ok(hf(&w) | 1)
            });
        }
    }
}

// ---------------------------------------------------------------- parameters
fn params(l: &mut Local) {
    let s = sites();
    let p = |g| Position::<Topocentric, ICRS, Kilometer>::new_with_params(g, 1.0, 2.0, 3.0);
    for (a, x) in &s {
        for (b, y) in &s {
            l.case("sites", &format!("{a}/{b}"), || {
                let (u, v) = (p(*x), p(*y));
                let d = u.try_distance_to(&v);
                let m = guard(|| u.checked_sub(&v)).and_then(|r| r.map_err(|e| e.to_string()));
                ensure!(d.is_ok() == (a == b), "distance between positions at {a} and {b}: {d:?}");
                ensure!(m.is_ok() == (a == b), "difference between positions at {a} and {b} was {}", if m.is_ok() { "computed" } else { "refused" });
                Ok(1)
            });
        }
    }
    let bs = bodies();
    let mut more = bs.clone();
    let mut other = bs[0].1;
    other.mu = bs[1].1.mu;
    more.push(("round-helio-mu", other));
    let mut other = bs[0].1;
    other.orbit = BodycentricParams::heliocentric(bs[3].1.orbit).orbit;
    other.orbit_center = OrbitReferenceCenter::Heliocentric;
    more.push(("tilted-helio2", other));
    let p = |g| Position::<Bodycentric, ICRS, Kilometer>::new_with_params(g, 1.0, 2.0, 3.0);
    for (i, (a, x)) in more.iter().enumerate() {
        for (j, (b, y)) in more.iter().enumerate() {
            l.case("bodies", &format!("{a}/{b}"), || {
                let same = i == j || (*a == "tilted-helio" && *b == "tilted-helio2") || (*b == "tilted-helio" && *a == "tilted-helio2");
                let (u, v) = (p(*x), p(*y));
                let d = u.try_distance_to(&v);
                let m = guard(|| u.checked_sub(&v)).and_then(|r| r.map_err(|e| e.to_string()));
                ensure!(d.is_ok() == same, "distance between positions from {a} and {b}: {d:?}");
                ensure!(m.is_ok() == same, "difference between positions from {a} and {b} was {}", if m.is_ok() { "computed" } else { "refused" });
                Ok(1)
            });
        }
    }
}

pub fn run(tier: Tier) -> Ctx {
    let mut ctx = Ctx::new("C07", "model_checking", tier, "every ordered pair of centres x frames x epochs x contexts, every route between them; every body and site of a grid; every pair of centre parameters");
    ctx.assumptions = vec!["epochs 1900-2031 (UT1 prediction horizon)".into(), "Lagrange centres use the embedded archive by design: only their geometry is checked against the default ephemeris".into()];
    let epochs: Vec<f64> = ctx.pick({ let mut v = vec![2451545.0, 2460310.5]; v.extend(linspace(2415100.25, 2462800.1, 8)); v }, linspace(2415100.25, 2462800.1, 80));
    let items: Vec<(f64, usize)> = epochs.iter().flat_map(|&jd| (0..36).map(move |k| (jd, k))).collect();
    ctx.par(&items, |l, &(jd, k)| match k {
        0..10 => graph::<DefaultEphemeris, BigEop, Iau2006A>(l, "default/big/2006A", jd, &AstroContext::with_types(), k),
        10..20 => graph::<SynA, NullEop, Iau2006A>(l, "synA/null/2006A", jd, &AstroContext::with_types(), k - 10),
        20..30 => graph::<SynB, BigEop, Iau2000B>(l, "synB/big/2000B", jd, &AstroContext::with_types(), k - 20),
        30 => bodycentric::<DefaultEphemeris, NullEop, Iau2006A>(l, "default", jd, &AstroContext::with_types()),
        31 => bodycentric::<SynA, NullEop, Iau2006A>(l, "synA", jd, &AstroContext::with_types()),
        32 => bodycentric::<SynB, BigEop, Iau2000B>(l, "synB", jd, &AstroContext::with_types()),
        33 => observers::<DefaultEphemeris, NullEop, Iau2006A>(l, "default/null/2006A", jd, &AstroContext::with_types()),
        34 => observers::<SynA, BigEop, Iau2006A>(l, "synA/big/2006A", jd, &AstroContext::with_types()),
        _ => observers::<SynB, BigEop, Iau2000B>(l, "synB/big/2000B", jd, &AstroContext::with_types()),
    });
    let far: Vec<f64> = ctx.pick(vec![2405000.5, 2490000.25], linspace(2378500.5, 2414000.5, 12));
    ctx.par(&far, |l, &jd| lagrange(l, jd));
    let mut l = Local::default();
    site_chain(&mut l);
    params(&mut l);
    ctx.merge(l);
    ctx
}
