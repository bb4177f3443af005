//! C06: the frame graph. Every ordered pair of frames the library can rotate between is an edge;
//! every triangle of edges, at every explored epoch and context, must commute.
use crate::core::*;
use siderust::astro::eop::{EopProvider, EopValues, IersEop, NullEop};
use siderust::astro::nutation::{Iau2000A, Iau2000B, Iau2006, Iau2006A, NutationModel};
use siderust::coordinates::cartesian::{Direction, Position, Vector, Velocity};
use siderust::coordinates::centers::Barycentric;
use siderust::coordinates::frames::planetary::*;
use siderust::coordinates::frames::*;
use siderust::coordinates::spherical;
use siderust::coordinates::transform::context::{AstroContext, DefaultEphemeris, ModelContext, TransformContext};
use siderust::coordinates::transform::providers::{frame_rotation_as, FrameRotationProvider};
use siderust::coordinates::transform::{DirectionAstroExt, PositionAstroExt, SphericalDirectionAstroExt, TransformFrame, UsingEngine, VectorAstroExt};
use siderust::qtty::{Arcseconds, MilliArcseconds, Seconds};
use siderust::time::JulianDate;
use std::marker::PhantomData;

pub type M = [[f64; 3]; 3];
type Astro<E> = AstroContext<DefaultEphemeris, E>;

/// A synthetic Earth-orientation provider whose values are large enough to show in every route.
#[derive(Debug, Clone, Copy, Default)]
pub struct BigEop;
impl EopProvider for BigEop {
    fn eop_at(&self, jd: JulianDate) -> EopValues {
        let x = (jd.raw().value() - 2451545.0) / 365.25;
        EopValues {
            dut1: Seconds::new(0.3 * (x * 0.7).sin()),
            xp: Arcseconds::new(0.25 * (x * 5.0).cos()),
            yp: Arcseconds::new(0.35 + 0.2 * (x * 5.0).sin()),
            dx: MilliArcseconds::new(0.4 * (x * 3.0).sin() + 0.3),
            dy: MilliArcseconds::new(-0.35 + 0.2 * x.cos()),
            lod: Seconds::new(0.001),
        }
    }
}

struct W<A, B>(PhantomData<(A, B)>);
type Routes = Vec<(&'static str, [f64; 3], bool)>;
trait Yes {
    fn rot<E: EopProvider, N: NutationModel>(&self, jd: JulianDate, c: &Astro<E>) -> Option<M>;
    fn routes<E: EopProvider, N: NutationModel>(&self, jd: JulianDate, c: &Astro<E>, v: [f64; 3]) -> Routes;
}
impl<A: ReferenceFrame, B: ReferenceFrame> Yes for &W<A, B>
where
    (): FrameRotationProvider<A, B>,
{
    fn rot<E: EopProvider, N: NutationModel>(&self, jd: JulianDate, c: &Astro<E>) -> Option<M> {
        Some(*frame_rotation_as::<A, B, N, DefaultEphemeris, E>(jd, c).as_matrix())
    }
    fn routes<E: EopProvider, N: NutationModel>(&self, jd: JulianDate, c: &Astro<E>, v: [f64; 3]) -> Routes {
        type AU = siderust::qtty::unit::AstronomicalUnit;
        let m: ModelContext<'_, DefaultEphemeris, E, N> = c.with_model::<N>();
        let d = Direction::<A>::new(v[0], v[1], v[2]);
        let p = Position::<Barycentric, A, AU>::new(v[0], v[1], v[2]);
        let w = Vector::<A, AU>::new(v[0], v[1], v[2]);
        let s = spherical::Direction::<A>::from_cartesian(&d);
        let mut out: Routes = vec![];
        let a = |d: Direction<B>| [d.x(), d.y(), d.z()];
        let b = |p: Position<Barycentric, B, AU>| [p.x().value(), p.y().value(), p.z().value()];
        let q = |p: Vector<B, AU>| [p.x().value(), p.y().value(), p.z().value()];
        out.push(("direction with", a(DirectionAstroExt::to_frame_with::<B, _>(&d, &jd, &m)), true));
        out.push(("direction using", a(d.using(&m).to_frame::<B>(&jd)), true));
        out.push(("spherical with", a(SphericalDirectionAstroExt::to_frame_with::<B, _>(&s, &jd, &m).to_cartesian()), true));
        out.push(("position with", b(PositionAstroExt::to_frame_with::<B, _>(&p, &jd, &m)), false));
        out.push(("position using", b(p.using(&m).to_frame::<B>(&jd)), false));
        out.push(("vector with", q(VectorAstroExt::to_frame_with::<B, _>(&w, &jd, &m)), false));
        out
    }
}
trait No {
    fn rot<E: EopProvider, N: NutationModel>(&self, _: JulianDate, _: &Astro<E>) -> Option<M> {
        None
    }
    fn routes<E: EopProvider, N: NutationModel>(&self, _: JulianDate, _: &Astro<E>, _: [f64; 3]) -> Routes {
        vec![]
    }
}
impl<A, B> No for W<A, B> {}

macro_rules! graph {
    (@row $a:ty; $($b:ty),*; $k:ident, $f:ident, $jd:ident, $c:ident, $($x:expr),*) => {
        vec![$( (&&W::<$a, $b>(PhantomData)).$f::<E, N>($jd, $c $(, $x)*) ),*]
    };
    ($($a:ident),*) => {
        pub const NAMES: &[&str] = &[$(stringify!($a)),*];
        graph!(@table [$($a),*] [$($a),*]);
    };
    (@table [$($a:ident),*] $all:tt) => {
        fn table<E: EopProvider, N: NutationModel>(jd: JulianDate, c: &Astro<E>) -> Vec<Vec<Option<M>>> {
            vec![$( graph!(@r $a $all jd c) ),*]
        }
        fn routes<E: EopProvider, N: NutationModel>(jd: JulianDate, c: &Astro<E>, v: [f64; 3]) -> Vec<Vec<Routes>> {
            vec![$( graph!(@s $a $all jd c v) ),*]
        }
    };
    (@r $a:ident [$($b:ident),*] $jd:ident $c:ident) => { vec![$( (&&W::<$a, $b>(PhantomData)).rot::<E, N>($jd, $c) ),*] };
    (@s $a:ident [$($b:ident),*] $jd:ident $c:ident $v:ident) => { vec![$( (&&W::<$a, $b>(PhantomData)).routes::<E, N>($jd, $c, $v) ),*] };
}
graph!(ICRS, ICRF, GCRS, EME2000, EquatorialMeanJ2000, EclipticMeanJ2000, EquatorialMeanOfDate, EquatorialTrueOfDate, TEME, CIRS, TIRS, ITRF, ECEF, Galactic, FK4B1950,
    MercuryFixed, VenusFixed, MarsFixed, MoonPrincipalAxes, JupiterSystemIII, SaturnFixed, UranusFixed, NeptuneFixed, PlutoFixed);

pub fn ix(n: &str) -> usize {
    NAMES.iter().position(|x| *x == n).unwrap()
}
pub fn mul(a: &M, b: &M) -> M {
    let mut r = [[0.0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            r[i][j] = (0..3).map(|k| a[i][k] * b[k][j]).sum();
        }
    }
    r
}
pub fn tr(a: &M) -> M {
    let mut r = [[0.0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            r[i][j] = a[j][i];
        }
    }
    r
}
pub fn app(a: &M, v: [f64; 3]) -> [f64; 3] {
    [0, 1, 2].map(|i| (0..3).map(|k| a[i][k] * v[k]).sum())
}
pub fn dist(a: &M, b: &M) -> f64 {
    (0..9).map(|k| (a[k / 3][k % 3] - b[k / 3][k % 3]).abs()).fold(0.0, |x: f64, y| if y.is_nan() { f64::INFINITY } else { x.max(y) })
}
fn det(a: &M) -> f64 {
    a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0]) + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0])
}
const ID: M = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]];

/// Documented precision: two catalogue matrices are given to about ten digits.
fn base_tol(f: usize) -> f64 {
    match NAMES[f] {
        "FK4B1950" => 5e-10,
        "Galactic" => 1e-14,
        _ => 3e-14,
    }
}
/// Routes on which the celestial-pole offsets are documented not to be applied.
fn offset_free_leg(a: usize, b: usize) -> bool {
    let mean = |x| matches!(NAMES[x], "EquatorialMeanJ2000" | "EME2000" | "EquatorialMeanOfDate");
    let t = |x| matches!(NAMES[x], "EquatorialTrueOfDate" | "TEME");
    (mean(a) && t(b)) || (mean(b) && t(a))
}

fn check<E: EopProvider + Clone, N: NutationModel>(l: &mut Local, ctx: &str, jd: f64, c: &Astro<E>, routes_too: bool) {
    let t = JulianDate::new(jd);
    let tab = table::<E, N>(t, c);
    let eop = c.eop_at_tt(t);
    // offsets in radians; dX maps to dpsi = dX / sin(eps)
    let off = (eop.dx.value().abs() / 0.397 * 0.92 + eop.dx.value().abs() + eop.dy.value().abs()) * 1e-3 / 206264.806 * 2.0;
    let n = NAMES.len();
    for i in 0..n {
        for j in 0..n {
            let Some(r) = &tab[i][j] else { continue };
            l.case("proper", &format!("{ctx}/{jd}/{}>{}", NAMES[i], NAMES[j]), || {
                let tol = base_tol(i).max(base_tol(j)) * 4.0;
                ensure!(dist(&mul(r, &tr(r)), &ID) < tol.max(1e-13), "lengths and angles are not preserved: {r:?}");
                ensure!((det(r) - 1.0).abs() < tol.max(1e-13), "determinant {}", det(r));
                let Some(b) = &tab[j][i] else { return Err("the opposite direction is not available".into()) };
                ensure!(dist(&mul(b, r), &ID) < tol.max(1e-13), "there and back gives {:?}", mul(b, r));
                if i == j {
                    ensure!(*r == ID, "identity change is {r:?}");
                }
                Ok(hf(&[r[0][0], r[0][1], r[1][2]]) | 1)
            });
        }
    }
    // all two-leg routes, against the direct one where there is one and against each other
    for i in 0..n {
        for k in 0..n {
            let mids: Vec<usize> = (0..n).filter(|&m| m != i && m != k && tab[i][m].is_some() && tab[m][k].is_some()).collect();
            if mids.is_empty() {
                continue;
            }
            l.case("route", &format!("{ctx}/{jd}/{}>{}", NAMES[i], NAMES[k]), || {
                let legs = |m: usize| (mul(tab[m][k].as_ref().unwrap(), tab[i][m].as_ref().unwrap()), offset_free_leg(i, m) as u32 + offset_free_leg(m, k) as u32, format!("via {}", NAMES[m]));
                let first = match &tab[i][k] {
                    Some(d) => (*d, offset_free_leg(i, k) as u32, "direct".to_string()),
                    None => legs(mids[0]),
                };
                for &m in &mids {
                    let (r, o, name) = legs(m);
                    let mut tol = (base_tol(i) + base_tol(k) + base_tol(m)) * 2.0 + 1e-13;
                    if o != first.1 {
                        tol += off;
                    }
                    let d = dist(&r, &first.0);
                    ensure!(d <= tol, "{name} differs from {} by {d:.3e} (allowed {tol:.1e})", first.2);
                }
                Ok(hf(&[first.0[0][0], first.0[1][2]]) | 1)
            });
            l.traces += mids.len() as u64;
        }
    }
    absolute(l, ctx, jd, &tab, &eop, off);
    if routes_too {
        for (vi, v) in [[0.6, -0.48, 0.64], [0.0, 0.0, 1.0], [-1.0, 0.0, 0.0], [1e-9, -0.6, -0.8]].into_iter().enumerate() {
            let rt = routes::<E, N>(t, c, v);
            for i in 0..n {
                for j in 0..n {
                    let Some(r) = &tab[i][j] else { continue };
                    l.case("kinds", &format!("{ctx}/{jd}/{}>{}/{vi}", NAMES[i], NAMES[j]), || {
                        let want = app(r, v);
                        for (name, got, _) in &rt[i][j] {
                            let e = (0..3).map(|k| (got[k] - want[k]).abs()).fold(0.0, f64::max);
                            ensure!(e < 4e-8, "{name}: {got:?} instead of {want:?}");
                            if !name.starts_with("spherical") {
                                ensure!(e < 1e-8_f64.min(base_tol(i).max(base_tol(j)) + 1e-14), "{name}: {got:?} instead of {want:?}");
                            }
                        }
                        Ok(hf(&want) | 1)
                    });
                }
            }
        }
    }
}

fn body_params(n: &str) -> Option<IauRotationParams> {
    Some(match n {
        "MercuryFixed" => MERCURY_ROTATION,
        "VenusFixed" => VENUS_ROTATION,
        "MarsFixed" => MARS_ROTATION,
        "MoonPrincipalAxes" => MOON_ROTATION,
        "JupiterSystemIII" => JUPITER_ROTATION,
        "SaturnFixed" => SATURN_ROTATION,
        "UranusFixed" => URANUS_ROTATION,
        "NeptuneFixed" => NEPTUNE_ROTATION,
        "PlutoFixed" => PLUTO_ROTATION,
        _ => return None,
    })
}

/// Relations a correct frame system has, taken from the definitions of the frames.
fn absolute(l: &mut Local, ctx: &str, jd: f64, tab: &[Vec<Option<M>>], eop: &EopValues, off: f64) {
    let get = |a: &str, b: &str| tab[ix(a)][ix(b)].unwrap();
    l.case("definitions", &format!("{ctx}/{jd}"), || {
        for (a, b) in [("ICRS", "ICRF"), ("ICRS", "GCRS"), ("EME2000", "EquatorialMeanJ2000"), ("ITRF", "ECEF")] {
            ensure!(dist(&get(a, b), &ID) < 1e-15, "{a} and {b} are the same axes");
        }
        // mean obliquity at J2000 and the ecliptic pole
        let r = get("EquatorialMeanJ2000", "EclipticMeanJ2000");
        let eps = (r[1][2]).atan2(r[1][1]);
        ensure!((eps.to_degrees() - 84381.406 / 3600.0).abs() < 1e-8 && (r[0][0] - 1.0).abs() < 1e-15, "obliquity {}", eps.to_degrees());
        // frame bias below 25 mas, not zero
        let b = get("ICRS", "EquatorialMeanJ2000");
        let bd = dist(&b, &ID);
        ensure!(bd > 3e-8 && bd < 1.3e-7, "frame bias {bd:e}");
        // galactic pole and centre
        let g = get("ICRS", "Galactic");
        let sph = |v: [f64; 3]| (v[1].atan2(v[0]).to_degrees().rem_euclid(360.0), v[2].asin().to_degrees());
        let (ra, de) = sph(g[2]);
        ensure!((ra - 192.85948).abs() < 1e-4 && (de - 27.12825).abs() < 1e-4, "galactic pole {ra} {de}");
        let (ra, de) = sph(g[0]);
        ensure!((ra - 266.40500).abs() < 1e-3 && (de + 28.93617).abs() < 1e-3, "galactic centre {ra} {de}");
        // precession: pole displacement from J2000 about 20.04"/yr along +x
        let y = (jd - 2451545.0) / 365.25;
        let p = get("EquatorialMeanJ2000", "EquatorialMeanOfDate");
        let x = p[2][0].asin() * 206264.806;
        ensure!((x - 20.0419 * y).abs() < 0.02 + 2e-4 * y * y + 1e-6 * y.abs().powi(3), "precessed pole x {x} for {y} years");
        let zeta_z = (p[0][1]).atan2(p[0][0]) * 206264.806;
        ensure!((zeta_z + 46.1244 * y).abs() < 0.05 + 4e-4 * y * y + 1e-6 * y.abs().powi(3), "precession in right ascension {zeta_z} for {y} years");
        // nutation below 20", pole shared by the true equator, TEME and the CIP
        let nu = get("EquatorialMeanOfDate", "EquatorialTrueOfDate");
        ensure!(dist(&nu, &ID) < 20.0 / 206264.8, "nutation {:e}", dist(&nu, &ID));
        let (tod, cirs, teme) = (get("ICRS", "EquatorialTrueOfDate"), get("ICRS", "CIRS"), get("ICRS", "TEME"));
        let dp = |a: [f64; 3], b: [f64; 3]| (0..3).map(|k| (a[k] - b[k]).abs()).fold(0.0, f64::max);
        ensure!(dp(tod[2], teme[2]) < 1e-13, "TEME and the true equator have different poles");
        let far = 1.0 + (y / 40.0).powi(2);
        ensure!(dp(tod[2], cirs[2]) < 2e-9 * far, "the CIP of the two routes differ by {:e}", dp(tod[2], cirs[2]));
        // CIRS x axis has no right-ascension motion: equation of the origins ~ -precession in RA
        let eo = mul(&cirs, &tr(&tod));
        let eo_as = eo[0][1].atan2(eo[0][0]) * 206264.806;
        ensure!((eo_as.abs() - (46.1244 * y).abs()).abs() < 25.0 + 4e-4 * y * y, "equation of the origins {eo_as} arcsec for {y} years");
        // Earth rotation angle from UT1, polar motion from the provider
        let er = get("CIRS", "TIRS");
        ensure!((er[2][2] - 1.0).abs() < 1e-15, "CIRS to TIRS is not a rotation about the pole");
        let pm = get("TIRS", "ITRF");
        ensure!((pm[2][0] * 206264.806 + eop.xp.value()).abs() < 1e-6, "polar motion x {}", pm[2][0] * 206264.806);
        ensure!((pm[2][1] * 206264.806 - eop.yp.value()).abs() < 1e-6, "polar motion y {}", pm[2][1] * 206264.806);
        // the two independent descriptions of Earth rotation agree: apparent sidereal time against the CIO chain
        let g = mul(&get("ICRS", "TIRS"), &tr(&tod));
        let t = JulianDate::new(jd);
        let ut1 = siderust::astro::earth_rotation::jd_ut1_from_tt_eop(t, eop);
        let gast = siderust::astro::sidereal::gast_iau2006a(ut1, t).value();
        let ang = g[0][1].atan2(g[0][0]);
        let d = (ang - gast + 3.0 * std::f64::consts::PI).rem_euclid(std::f64::consts::TAU) - std::f64::consts::PI;
        ensure!(ctx.ends_with("/2006") || d.abs() < 2e-8 * far + off, "angle from the equinox to the terrestrial meridian {ang}, apparent sidereal time {gast}: differ by {d:e}");
        // FK4: precession over 50 years
        let f = get("FK4B1950", "EquatorialMeanJ2000");
        ensure!((f[2][0] * 206264.8 - 20.04 * 50.0).abs() < 3.0 && (f[1][0] * 206264.8 - 46.1 * 50.0).abs() < 5.0, "FK4 matrix {f:?}");
        // planetary poles and rotation
        for n in NAMES {
            if let Some(par) = body_params(n) {
                let t = JulianDate::new(jd);
                let r = get("ICRS", n);
                let (ra, de) = sph(r[2]);
                let wrap = |d: f64| (d + 180.0).rem_euclid(360.0) - 180.0;
                ensure!(wrap(ra - par.alpha0(t).value()).abs() < 1e-6 && (de - par.delta0(t).value()).abs() < 1e-6, "{n}: pole {ra} {de}");
                // node direction (alpha0 + 90 deg) lies at longitude -W from the prime meridian
                let a = (par.alpha0(t).value() + 90.0).to_radians();
                let q = app(&r, [a.cos(), a.sin(), 0.0]);
                ensure!(q[2].abs() < 1e-9, "{n}: node is off the equator");
                let lon = q[1].atan2(q[0]).to_degrees();
                ensure!(wrap(lon + par.w(t).value()).abs() < 1e-6, "{n}: prime meridian at {lon} for W = {}", par.w(t).value());
            }
        }
        Ok(hf(&[p[2][0], er[0][0]]) | 1)
    });
}

fn statics(l: &mut Local) {
    type AU = siderust::qtty::unit::AstronomicalUnit;
    let c: Astro<NullEop> = AstroContext::default();
    let tab = table::<NullEop, Iau2006A>(JulianDate::new(2451545.0), &c);
    macro_rules! pair {
        ($a:ident, $b:ident) => {
            for v in [[0.6, -0.48, 0.64], [0.0, 0.0, 1.0], [0.0, -1.0, 0.0], [-0.36, 0.48, -0.8]] {
                l.case("static", &format!("{}>{}/{v:?}", stringify!($a), stringify!($b)), || {
                    let want = app(&tab[ix(stringify!($a))][ix(stringify!($b))].unwrap(), v);
                    let d: Direction<$b> = TransformFrame::to_frame(&Direction::<$a>::new(v[0], v[1], v[2]));
                    let p: Position<Barycentric, $b, AU> = TransformFrame::to_frame(&Position::<Barycentric, $a, AU>::new(v[0], v[1], v[2]));
                    let w: Velocity<$b, siderust::qtty::unit::Kilometer> = TransformFrame::to_frame(&Velocity::<$a, siderust::qtty::unit::Kilometer>::new(v[0], v[1], v[2]));
                    let sp: spherical::Position<Barycentric, $b, AU> = TransformFrame::to_frame(&spherical::Position::from_cartesian(&Position::<Barycentric, $a, AU>::new(v[0], v[1], v[2])));
                    let sd: spherical::Direction<$b> = TransformFrame::to_frame(&spherical::Direction::from_cartesian(&Direction::<$a>::new(v[0], v[1], v[2])));
                    let (sp, sd) = (sp.to_cartesian(), sd.to_cartesian());
                    for (n, g, tol) in [("direction", [d.x(), d.y(), d.z()], 1e-13), ("position", [p.x().value(), p.y().value(), p.z().value()], 1e-13), ("velocity", [w.x().value(), w.y().value(), w.z().value()], 1e-13),
                        ("spherical position", [sp.x().value(), sp.y().value(), sp.z().value()], 4e-8), ("spherical direction", [sd.x(), sd.y(), sd.z()], 4e-8)] {
                        let e = (0..3).map(|k| (g[k] - want[k]).abs()).fold(0.0, f64::max);
                        ensure!(e < tol, "{n} gives {g:?} instead of {want:?}");
                    }
                    Ok(hf(&want) | 1)
                });
            }
        };
    }
    pair!(ICRS, EquatorialMeanJ2000);
    pair!(ICRS, EclipticMeanJ2000);
    pair!(EquatorialMeanJ2000, ICRS);
    pair!(EquatorialMeanJ2000, EclipticMeanJ2000);
    pair!(EclipticMeanJ2000, ICRS);
    pair!(EclipticMeanJ2000, EquatorialMeanJ2000);
    pair!(ICRS, ICRS);
}

pub fn run(tier: Tier) -> Ctx {
    let mut ctx = Ctx::new("C06", "exploration", tier,
        "the whole graph of frame pairs with a rotation provider (found at compile time among 24 frames) at every epoch of a grid 1850-2032 (inside the UT1 prediction horizon, beyond which the conversions are documented to panic) x {null, IERS, synthetic large} Earth-orientation providers x {IAU 2000A, 2000B, 2006, 2006A} nutation; every edge and every two-leg route between every pair; directions, positions, vectors and velocities through every entry point; defining relations of the frames. Non-trivial: every case (each compares matrices).");
    ctx.assumptions = vec!["routes that differ in applying celestial-pole offsets may differ by the size of the offsets; the FK4 and Galactic matrices are orthonormal to the digits given".into()];
    let n = ctx.pick(40, 600);
    let mut eps: Vec<f64> = (0..n).map(|i| 2396758.5 + (i as f64 + 0.37) * 66500.0 / n as f64).collect();
    eps.extend([2451545.0, 2451544.5, 2460000.5, 2460000.25, 2441317.5, 2437300.5, 2441316.9999, 2461000.5]);
    let items: Vec<(usize, f64)> = eps.iter().copied().enumerate().collect();
    ctx.par(&items, |l, &(i, jd)| {
        let (a, b, c): (Astro<NullEop>, Astro<BigEop>, Astro<IersEop>) = Default::default();
        check::<_, Iau2006A>(l, "null/2006A", jd, &a, i % 8 == 0);
        check::<_, Iau2006A>(l, "big/2006A", jd, &b, i % 8 == 1);
        check::<_, Iau2006A>(l, "iers/2006A", jd, &c, i % 8 == 2);
        check::<_, Iau2000A>(l, "big/2000A", jd, &b, i % 8 == 3);
        check::<_, Iau2000B>(l, "big/2000B", jd, &b, i % 8 == 4);
        check::<_, Iau2006>(l, "big/2006", jd, &b, i % 8 == 5);
    });
    let mut l = Local::default();
    statics(&mut l);
    // the context-free entry points use the default context
    let c: AstroContext = AstroContext::default();
    for jd in [2451545.25, 2460123.5] {
        let t = JulianDate::new(jd);
        l.case("default context", &format!("{jd}"), || {
            let d = Direction::<ICRS>::new(0.6, -0.48, 0.64);
            let (x, y): (Direction<EquatorialTrueOfDate>, Direction<EquatorialTrueOfDate>) = (DirectionAstroExt::to_frame(&d, &t), DirectionAstroExt::to_frame_with(&d, &t, &c));
            let w = siderust::coordinates::transform::providers::frame_rotation::<ICRS, EquatorialTrueOfDate>(t, &c).apply_array([0.6, -0.48, 0.64]);
            ensure!([x.x(), x.y(), x.z()] == [y.x(), y.y(), y.z()] && (x.x() - w[0]).abs() < 1e-15, "default context differs");
            let _ = TransformContext::astro_context(&c);
            Ok(1)
        });
    }
    ctx.merge(l);
    ctx
}
