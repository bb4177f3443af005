//! C19: forces, force registry, integrators and state-transition matrices against independently
//! derived accelerations, an independent integrator and the conservation laws.
use crate::core::*;
use siderust::astro::dynamics::density::DensityProvider;
use siderust::astro::dynamics::errors::DynamicsError;
use siderust::astro::dynamics::forces::*;
use siderust::astro::dynamics::gravity::{GravityFieldProvider, LowDegreeEarth, TwoBodyEarth};
use siderust::astro::dynamics::propagation::*;
use siderust::astro::dynamics::state::{Position, Velocity};
use siderust::astro::dynamics::{DynamicsContext, OrbitState, SpacecraftProperties, SpacecraftState, EARTH_J2};
use siderust::coordinates::cartesian;
use siderust::coordinates::centers::{Barycentric, Geocentric, Heliocentric};
use siderust::coordinates::frames::{EclipticMeanJ2000, GCRS};
use siderust::ephemeris::{AuPerDay, DynEphemeris, EphemerisError, Vsop87Ephemeris};
use siderust::pod::force::*;
use siderust::pod::propagation::*;
use siderust::qtty::unit::{AstronomicalUnit, Kilometer};
use siderust::qtty::*;
use siderust::time::JulianDate;
use std::sync::Arc;

type V3 = [f64; 3];
type Dyn = dyn DensityProvider + Send + Sync;
fn add(a: V3, b: V3) -> V3 {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
fn sub(a: V3, b: V3) -> V3 {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
fn sc(a: V3, k: f64) -> V3 {
    [a[0] * k, a[1] * k, a[2] * k]
}
fn dot(a: V3, b: V3) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
fn cross(a: V3, b: V3) -> V3 {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn nrm(a: V3) -> f64 {
    dot(a, a).sqrt()
}
const MU: f64 = 398_600.441_8;
const RE: f64 = 6_378.137;
const MU_SUN: f64 = 1.327_124_400_18e11;
const MU_MOON: f64 = 4_902.800_066;
const AU: f64 = 149_597_870.7;
const WE: f64 = 7.292_115_146_7e-5;
const C: f64 = 299_792.458;

// ------------------------------------------------------------------------------------------
// Providers
// ------------------------------------------------------------------------------------------

/// Bodies on simple known curves; `down` lists bodies that are unavailable.
#[derive(Clone, Copy)]
struct Sky {
    down: &'static str,
}
fn sun_b(jd: f64) -> V3 {
    let t = (jd - 2451545.0) / 4000.0;
    [0.004 * t.cos(), -0.006 * t.sin(), 0.0002 * t]
}
fn earth_b(jd: f64) -> V3 {
    let t = (jd - 2451545.0) * 0.0172;
    [1.01 * t.cos(), 0.97 * t.sin(), 0.0001 * (3.0 * t).cos()]
}
fn moon_g(jd: f64) -> V3 {
    let t = (jd - 2451545.0) * 0.2299;
    [384_000.0 * t.cos(), 379_000.0 * t.sin(), 33_000.0 * (1.1 * t).sin()]
}
impl Sky {
    fn is_down(&self, b: &str) -> Result<(), EphemerisError> {
        if self.down.contains(b) {
            Err(EphemerisError::OutOfRange { jd: 0.0, start_jd: 1.0, end_jd: 2.0 })
        } else {
            Ok(())
        }
    }
}
type PB = cartesian::Position<Barycentric, EclipticMeanJ2000, AstronomicalUnit>;
type PH = cartesian::Position<Heliocentric, EclipticMeanJ2000, AstronomicalUnit>;
type PG = cartesian::Position<Geocentric, EclipticMeanJ2000, Kilometer>;
type VE = cartesian::Velocity<EclipticMeanJ2000, AuPerDay>;
impl DynEphemeris for Sky {
    fn try_sun_barycentric(&self, jd: JulianDate) -> Result<PB, EphemerisError> {
        self.is_down("sun")?;
        Ok(self.sun_barycentric(jd))
    }
    fn sun_barycentric(&self, jd: JulianDate) -> PB {
        let p = sun_b(jd.value());
        PB::new(p[0], p[1], p[2])
    }
    fn try_earth_barycentric(&self, jd: JulianDate) -> Result<PB, EphemerisError> {
        self.is_down("earth")?;
        Ok(self.earth_barycentric(jd))
    }
    fn earth_barycentric(&self, jd: JulianDate) -> PB {
        let p = earth_b(jd.value());
        PB::new(p[0], p[1], p[2])
    }
    fn try_earth_heliocentric(&self, jd: JulianDate) -> Result<PH, EphemerisError> {
        self.is_down("earth")?;
        Ok(self.earth_heliocentric(jd))
    }
    fn earth_heliocentric(&self, jd: JulianDate) -> PH {
        let p = sub(earth_b(jd.value()), sun_b(jd.value()));
        PH::new(p[0], p[1], p[2])
    }
    fn try_earth_barycentric_velocity(&self, jd: JulianDate) -> Result<VE, EphemerisError> {
        self.is_down("earth")?;
        Ok(self.earth_barycentric_velocity(jd))
    }
    fn earth_barycentric_velocity(&self, jd: JulianDate) -> VE {
        let p = sc(sub(earth_b(jd.value() + 0.5), earth_b(jd.value() - 0.5)), 1.0);
        VE::new(p[0], p[1], p[2])
    }
    fn try_moon_geocentric(&self, jd: JulianDate) -> Result<PG, EphemerisError> {
        self.is_down("moon")?;
        Ok(self.moon_geocentric(jd))
    }
    fn moon_geocentric(&self, jd: JulianDate) -> PG {
        let p = moon_g(jd.value());
        PG::new(p[0], p[1], p[2])
    }
}
/// Density that falls slowly, so that every altitude is told apart.
struct Air;
fn air(h: f64) -> f64 {
    3e-12 / (1.0 + (h / 400.0).powi(2))
}
impl DensityProvider for Air {
    fn name(&self) -> &'static str {
        "air"
    }
    fn density(&self, h: Kilometers) -> Result<KilogramsPerCubicMeter, DynamicsError> {
        Ok(KilogramsPerCubicMeter::new(air(h.value())))
    }
}
struct NoAir;
impl DensityProvider for NoAir {
    fn name(&self) -> &'static str {
        "noair"
    }
    fn density(&self, h: Kilometers) -> Result<KilogramsPerCubicMeter, DynamicsError> {
        Err(DynamicsError::AltitudeBelowSurface { altitude_km: h.value() })
    }
}
/// Field with the central term and one chosen coefficient pair.
#[derive(Clone, Copy)]
struct One(usize, usize, f64, f64);
impl GravityFieldProvider for One {
    fn mu(&self) -> GravitationalParameter {
        GravitationalParameter::new(MU)
    }
    fn reference_radius(&self) -> Kilometers {
        Kilometers::new(RE)
    }
    fn max_degree(&self) -> usize {
        5
    }
    fn max_order(&self) -> usize {
        4
    }
    fn c_normalized(&self, n: usize, m: usize) -> Result<f64, principia::PrincipiaError> {
        Ok(if n == 0 { 1.0 } else if (n, m) == (self.0, self.1) { self.2 } else { 0.0 })
    }
    fn s_normalized(&self, n: usize, m: usize) -> Result<f64, principia::PrincipiaError> {
        Ok(if (n, m) == (self.0, self.1) { self.3 } else { 0.0 })
    }
}
/// Published low-degree coefficients of EGM2008 (tide free).
const EGM: &[(usize, usize, f64, f64)] = &[
    (2, 0, -4.841_65e-4, 0.0),
    (2, 2, 2.439_38e-6, -1.400_27e-6),
    (3, 0, 9.571_61e-7, 0.0),
    (3, 1, 2.030_46e-6, 2.482_00e-7),
    (3, 2, 9.047_88e-7, -6.190_05e-7),
    (3, 3, 7.213_22e-7, 1.414_35e-6),
    (4, 0, 5.399_66e-7, 0.0),
    (4, 1, -5.361_57e-7, -4.735_67e-7),
    (4, 2, 3.505_02e-7, 6.624_80e-7),
    (4, 3, 9.908_57e-7, -2.009_57e-7),
    (4, 4, -1.885_20e-7, 3.088_04e-7),
];
fn ctx_of(eph: Option<&'static str>, air_on: bool, grav: bool) -> DynamicsContext {
    let mut b = DynamicsContext::builder();
    if let Some(d) = eph {
        b = b.with_ephemeris(Arc::new(Sky { down: d }));
    }
    if air_on {
        b = b.with_atmosphere(Arc::new(Air) as Arc<Dyn>);
    }
    if grav {
        b = b.with_gravity(Arc::new(LowDegreeEarth));
    }
    b.build()
}

// ------------------------------------------------------------------------------------------
// Independent accelerations
// ------------------------------------------------------------------------------------------

fn ecl_to_eq(v: V3) -> V3 {
    let e = (84381.406f64 / 3600.0).to_radians();
    [v[0], v[1] * e.cos() - v[2] * e.sin(), v[1] * e.sin() + v[2] * e.cos()]
}
fn sun_at(jd: f64) -> V3 {
    sc(ecl_to_eq(sub(sun_b(jd), earth_b(jd))), AU)
}
fn moon_at(jd: f64) -> V3 {
    ecl_to_eq(moon_g(jd))
}
fn central(r: V3, mu: f64) -> V3 {
    sc(r, -mu / nrm(r).powi(3))
}
fn oblate(r: V3) -> V3 {
    // gradient of -(mu/r) J2 (R/r)^2 P2(z/r), by hand
    let (n, z) = (nrm(r), r[2]);
    let k = MU * EARTH_J2 * RE * RE;
    // U = -k (3 z^2/r^2 - 1) / (2 r^3)
    let g = |i: usize| {
        let d = |p: f64| -p * r[i] / n.powf(p + 2.0); // d(r^-p)/dx_i
        let dz = if i == 2 { 2.0 * z } else { 0.0 };
        -0.5 * k * (3.0 * (dz / n.powi(5) + z * z * d(5.0)) - d(3.0))
    };
    [g(0), g(1), g(2)]
}
fn third(r: V3, b: V3, mu: f64) -> V3 {
    let d = sub(b, r);
    sub(sc(d, mu / nrm(d).powi(3)), sc(b, mu / nrm(b).powi(3)))
}
fn factorial_ratio(a: usize, b: usize) -> f64 {
    // a! / b!
    let f = |n: usize| (1..=n).map(|x| x as f64).product::<f64>();
    f(a) / f(b)
}
/// Solid-harmonic recursion on an Earth-fixed position.
fn harmonics(p: V3, deg: usize, ord: usize, cs: &dyn Fn(usize, usize) -> (f64, f64)) -> V3 {
    let r2 = dot(p, p);
    let rho = RE * RE / r2;
    let (x0, y0, z0) = (RE * p[0] / r2, RE * p[1] / r2, RE * p[2] / r2);
    let n1 = deg + 2;
    let mut v = vec![vec![0.0; n1 + 1]; n1 + 1];
    let mut w = vec![vec![0.0; n1 + 1]; n1 + 1];
    v[0][0] = RE / r2.sqrt();
    for m in 0..=n1 {
        if m > 0 {
            let k = (2 * m - 1) as f64;
            v[m][m] = k * (x0 * v[m - 1][m - 1] - y0 * w[m - 1][m - 1]);
            w[m][m] = k * (x0 * w[m - 1][m - 1] + y0 * v[m - 1][m - 1]);
        }
        for n in m + 1..=n1 {
            let (a, b) = ((2 * n - 1) as f64 / (n - m) as f64, (n + m - 1) as f64 / (n - m) as f64);
            let (pv, pw) = if n >= m + 2 { (v[n - 2][m], w[n - 2][m]) } else { (0.0, 0.0) };
            v[n][m] = a * z0 * v[n - 1][m] - b * rho * pv;
            w[n][m] = a * z0 * w[n - 1][m] - b * rho * pw;
        }
    }
    let mut acc = [0.0; 3];
    for n in 0..=deg {
        for m in 0..=n.min(ord) {
            let (c, s) = cs(n, m);
            let norm = ((2 * n + 1) as f64 * if m == 0 { 1.0 } else { 2.0 } * factorial_ratio(n - m, n + m)).sqrt();
            let (c, s) = (c * norm, s * norm);
            if m == 0 {
                acc[0] -= c * v[n + 1][1];
                acc[1] -= c * w[n + 1][1];
            } else {
                let f = factorial_ratio(n - m + 2, n - m);
                acc[0] += 0.5 * (-c * v[n + 1][m + 1] - s * w[n + 1][m + 1] + f * (c * v[n + 1][m - 1] + s * w[n + 1][m - 1]));
                acc[1] += 0.5 * (-c * w[n + 1][m + 1] + s * v[n + 1][m + 1] + f * (-c * w[n + 1][m - 1] + s * v[n + 1][m - 1]));
            }
            acc[2] += (n - m + 1) as f64 * (-c * v[n + 1][m] - s * w[n + 1][m]);
        }
    }
    sc(acc, MU / (RE * RE))
}
fn geopot(jd: f64, r: V3, deg: usize, ord: usize, cs: &dyn Fn(usize, usize) -> (f64, f64)) -> V3 {
    let d = jd - 2451545.0;
    let era = std::f64::consts::TAU * (0.779_057_273_264_0 + d.fract() + 0.002_737_811_911_354_48 * d).rem_euclid(1.0);
    let (s, c) = era.sin_cos();
    let a = harmonics([c * r[0] + s * r[1], -s * r[0] + c * r[1], r[2]], deg, ord, cs);
    [c * a[0] - s * a[1], s * a[0] + c * a[1], a[2]]
}
fn egm(n: usize, m: usize) -> (f64, f64) {
    if n == 0 {
        return (1.0, 0.0);
    }
    let g = LowDegreeEarth;
    (g.c_normalized(n, m).unwrap(), g.s_normalized(n, m).unwrap())
}
fn altitude(r: V3) -> f64 {
    let (a, f) = (6378.137, 1.0 / 298.257_223_563);
    let e2 = f * (2.0 - f);
    let p = r[0].hypot(r[1]);
    let mut phi = r[2].atan2(p * (1.0 - e2));
    for _ in 0..40 {
        let n = a / (1.0 - e2 * phi.sin().powi(2)).sqrt();
        phi = (r[2] + e2 * n * phi.sin()).atan2(p);
    }
    p * phi.cos() + r[2] * phi.sin() - a * (1.0 - e2 * phi.sin().powi(2)).sqrt()
}
fn drag(r: V3, v: V3, cd: f64, am: f64, om: V3) -> Option<V3> {
    let h = altitude(r);
    if h < 0.0 {
        return None;
    }
    let u = sub(v, cross(om, r));
    Some(sc(u, -0.5 * cd * am * air(h) * nrm(u) * 1000.0))
}
fn shade(s: ShadowModel, r: V3, sun: V3) -> f64 {
    match s {
        ShadowModel::None => 1.0,
        ShadowModel::Cylindrical => {
            let u = sc(sun, 1.0 / nrm(sun));
            let k = dot(r, u);
            (k >= 0.0 || nrm(sub(r, sc(u, k))) >= RE) as u8 as f64
        }
        ShadowModel::Conical => {
            // visible fraction of the solar disc by summing strips
            let to_sun = sub(sun, r);
            let (re, rs) = ((RE / nrm(r)).min(1.0).asin(), (695_700.0 / nrm(to_sun)).asin());
            let th = nrm(cross(sc(r, -1.0), to_sun)).atan2(-dot(r, to_sun));
            if th >= re + rs {
                return 1.0;
            }
            if th <= re - rs {
                return 0.0;
            }
            let n = 4000;
            let mut hid = 0.0;
            for i in 0..n {
                // strip of the Sun's disc at height y, parallel to the line of centres
                let y = rs * (-1.0 + (2.0 * i as f64 + 1.0) / n as f64);
                let ws = (rs * rs - y * y).sqrt();
                if y.abs() < re {
                    let we = (re * re - y * y).sqrt();
                    hid += ((ws).min(we - th) - (-ws).max(-we - th)).max(0.0);
                }
            }
            1.0 - hid * (2.0 * rs / n as f64) / (std::f64::consts::PI * rs * rs)
        }
    }
}
fn srp(jd: f64, r: V3, cr: f64, am: f64, s: ShadowModel) -> V3 {
    let sun = sun_at(jd);
    let d = sub(r, sun);
    let k = shade(s, r, sun) * cr * am * 4.560e-6 * (AU / nrm(d)).powi(2) / 1000.0;
    sc(d, k / nrm(d))
}
fn schwarzschild(r: V3, v: V3) -> V3 {
    let n = nrm(r);
    let k = MU / (C * C * n * n * n);
    add(sc(r, k * (4.0 * MU / n - dot(v, v))), sc(v, k * 4.0 * dot(r, v)))
}
fn rtn(r: V3, v: V3, a: V3) -> V3 {
    let e = sc(r, 1.0 / nrm(r));
    let h = cross(r, v);
    let n = sc(h, 1.0 / nrm(h));
    let t = cross(n, e);
    add(add(sc(e, a[0]), sc(t, a[1])), sc(n, a[2]))
}

// ------------------------------------------------------------------------------------------
// Force elements
// ------------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq)]
enum El {
    Two,
    J2,
    Geo(usize, usize),
    Sun,
    Moon,
    Both,
    Drag(f64, f64),
    Srp(f64, f64, ShadowModel),
    Rel,
    Emp(V3),
    /// harmonic, period, coefficients
    Per(u8, f64, [f64; 6]),
}
const T_REF: f64 = 2459000.125;
fn acc_u(x: f64) -> KmPerSecondsSquared {
    KmPerSecondsSquared::new(x)
}
impl El {
    fn spec(&self) -> ForceModelSpec {
        use ForceModelParams as P;
        match *self {
            El::Two => ForceModelSpec::named("two_body"),
            El::J2 => ForceModelSpec::named("j2"),
            El::Sun => ForceModelSpec::named("third_body_sun"),
            El::Moon => ForceModelSpec::named("third_body_moon"),
            El::Both => ForceModelSpec::named("third_body_sun_moon"),
            El::Rel => ForceModelSpec::named("relativity"),
            El::Geo(degree, order) => ForceModelSpec::with_params("geopotential", P::Geopotential { degree, order }),
            El::Drag(c, a) => ForceModelSpec::with_params("drag", P::Drag { cd: DragCoefficient::new(c), area_to_mass: AreaToMass::new(a) }),
            El::Srp(c, a, shadow) => ForceModelSpec::with_params("srp_cannonball", P::SrpCannonball { cr: SrpCoefficient::new(c), area_to_mass: AreaToMass::new(a), shadow }),
            El::Emp(a) => ForceModelSpec::with_params("empirical_constant", P::EmpiricalConstant { radial: acc_u(a[0]), transverse: acc_u(a[1]), normal: acc_u(a[2]) }),
            El::Per(k, t, c) => ForceModelSpec::with_params(
                if k == 1 { "empirical_1cpr" } else { "empirical_2cpr" },
                P::EmpiricalPeriodic { harmonic: harm(k), epoch_ref: JulianDate::new(T_REF), period: Second::new(t), coeffs: c.map(acc_u) },
            ),
        }
    }
    fn build(&self) -> Box<DynSiderustForceModel> {
        match *self {
            El::Two => Box::new(TwoBody::new(GM_EARTH)),
            El::J2 => Box::new(J2::new(GM_EARTH, R_EARTH, EARTH_J2)),
            El::Geo(d, o) => Box::new(Geopotential::new(d, o)),
            El::Sun => Box::new(ThirdBody::new().with_sun()),
            El::Moon => Box::new(ThirdBody::new().with(Box::new(MoonPerturbation))),
            El::Both => Box::new(ThirdBody::sun_and_moon()),
            El::Drag(c, a) => Box::new(DragForce::new(DragCoefficient::new(c), AreaToMass::new(a))),
            El::Srp(c, a, s) => {
                let (c, a) = (SrpCoefficient::new(c), AreaToMass::new(a));
                match s {
                    ShadowModel::None => Box::new(CannonballSrp::<NoEclipse>::new(c, a)),
                    ShadowModel::Cylindrical => Box::new(CannonballSrp::<Cylindrical>::new(c, a)),
                    ShadowModel::Conical => Box::new(CannonballSrp::<Conical>::new(c, a)),
                }
            }
            El::Rel => Box::new(CentralBodyRelativity1Pn::earth()),
            El::Emp(a) => Box::new(EmpiricalAcceleration::rtn(acc_u(a[0]), acc_u(a[1]), acc_u(a[2]))),
            El::Per(k, t, c) => {
                let c = c.map(acc_u);
                Box::new(EmpiricalPeriodicAcceleration::new(harm(k), JulianDate::new(T_REF), Second::new(t), c[0], c[1], c[2], c[3], c[4], c[5]))
            }
        }
    }
    fn needs(&self) -> (bool, bool, bool) {
        match self {
            El::Sun | El::Moon | El::Both | El::Srp(..) => (true, false, false),
            El::Drag(..) => (false, true, false),
            El::Geo(..) => (false, false, true),
            _ => (false, false, false),
        }
    }
    /// Oracle; None where the force is undefined and must be refused.
    fn oracle(&self, jd: f64, r: V3, v: V3) -> Option<V3> {
        let n = nrm(r);
        match *self {
            El::Two => (n >= 100.0).then(|| central(r, MU)),
            El::J2 => (n >= 100.0).then(|| oblate(r)),
            El::Geo(d, o) => (n >= RE && o <= d && d <= 4).then(|| geopot(jd, r, d, o, &egm)),
            El::Sun => Some(third(r, sun_at(jd), MU_SUN)),
            El::Moon => Some(third(r, moon_at(jd), MU_MOON)),
            El::Both => Some(add(third(r, sun_at(jd), MU_SUN), third(r, moon_at(jd), MU_MOON))),
            El::Drag(c, a) => drag(r, v, c, a, [0.0, 0.0, WE]),
            El::Srp(c, a, s) => Some(srp(jd, r, c, a, s)),
            El::Rel => (n >= 100.0).then(|| schwarzschild(r, v)),
            El::Emp(a) => (nrm(cross(r, v)) > 0.0).then(|| rtn(r, v, a)),
            El::Per(k, t, c) => (nrm(cross(r, v)) > 0.0).then(|| {
                let th = if t > 0.0 && t.is_finite() { std::f64::consts::TAU * k as f64 * ((jd - T_REF) * 86400.0 / t) } else { 0.0 };
                let (s, q) = th.sin_cos();
                rtn(r, v, [c[0] * q + c[1] * s, c[2] * q + c[3] * s, c[4] * q + c[5] * s])
            }),
        }
    }
    /// Relative error allowed for what the force documents as approximate.
    fn tol(&self) -> f64 {
        match self {
            El::Sun | El::Moon | El::Both => 3e-6,
            El::Srp(_, _, ShadowModel::Conical) => 2e-4,
            El::Srp(..) => 3e-6,
            El::Drag(..) => 1e-7,
            El::Per(..) => 1e-6, // phase from Julian dates: 40 microseconds
            El::Geo(..) => 1e-9,
            _ => 1e-10,
        }
    }
}
fn harm(k: u8) -> PeriodicHarmonic {
    if k == 1 {
        PeriodicHarmonic::OncePerRev
    } else {
        PeriodicHarmonic::TwicePerRev
    }
}
fn elements() -> Vec<El> {
    let per = [1e-9, -2e-9, 3e-9, 5e-10, -4e-10, 2e-9];
    vec![
        El::Two,
        El::J2,
        El::Geo(4, 4),
        El::Sun,
        El::Moon,
        El::Both,
        El::Drag(2.2, 0.01),
        El::Srp(1.3, 0.02, ShadowModel::None),
        El::Srp(1.3, 0.02, ShadowModel::Cylindrical),
        El::Srp(1.3, 0.02, ShadowModel::Conical),
        El::Rel,
        El::Emp([1e-9, -2e-9, 3e-9]),
        El::Per(1, 5553.0, per),
        El::Per(2, 43077.0, per),
    ]
}
fn state(jd: f64, r: V3, v: V3) -> OrbitState {
    OrbitState::new(JulianDate::new(jd).to_j2000s(), Position::<GCRS>::new(r[0], r[1], r[2]), Velocity::<GCRS>::new(v[0], v[1], v[2]))
}
fn rv(s: &OrbitState) -> (V3, V3) {
    ([s.position.x().value(), s.position.y().value(), s.position.z().value()], [s.velocity.x().value(), s.velocity.y().value(), s.velocity.z().value()])
}
fn accel(f: &DynSiderustForceModel, s: &OrbitState, c: &DynamicsContext) -> Result<V3, String> {
    match guard(|| f.acceleration(s, c))? {
        Ok(a) => Ok([a.x().value(), a.y().value(), a.z().value()]),
        Err(e) => Err(format!("{e}")),
    }
}
fn same(what: &str, got: V3, want: V3, tol: f64) -> Result<(), String> {
    let d = nrm(sub(got, want));
    ensure!(d <= tol, "{what}: {got:?} instead of {want:?} (off by {d:e})");
    Ok(())
}
const EPOCHS: &[f64] = &[2451545.0, 2440587.5, 2459000.25, 2462502.765];

fn grid(tier: Tier) -> Vec<(String, f64, V3, V3)> {
    let mut out = vec![];
    let s = 0.5f64.sqrt();
    let dirs: Vec<V3> = vec![
        [1.0, 0.0, 0.0], [-1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, -1.0, 0.0], [0.0, 0.0, 1.0], [0.0, 0.0, -1.0],
        [s, s, 0.0], [-s, 0.0, s], [0.36, -0.48, 0.8], [-0.6, 0.64, -0.48], [1e-7, 0.0, 1.0], [0.05, -0.03, -0.998_299],
    ];
    let _ = tier;
    let radii: &[f64] = { &[50.0, 99.0, 101.0, 3000.0, 6360.0, 6377.0, 6379.0, 6500.0, 6778.0, 7000.0, 8500.0, 12_000.0, 26_600.0, 42_164.0, 120_000.0, 300_000.0, 1_500_000.0] };
    for &jd in EPOCHS {
        for (di, d) in dirs.iter().enumerate() {
            let d = sc(*d, 1.0 / nrm(*d));
            for &r in radii {
                let vs: Vec<V3> = vec![[0.0; 3], [0.3, 7.2, -1.1], [-5.0, 0.4, 5.5], sc(d, 3.0)];
                for (vi, v) in vs.iter().enumerate() {
                    out.push((format!("{jd}/dir{di}/r{r}/v{vi}"), jd, sc(d, r), *v));
                }
            }
        }
        // along the edge of the shadow, where the disc is partly hidden
        let sun = sun_at(jd);
        let u = sc(sun, 1.0 / nrm(sun));
        let p = cross(u, [0.0, 0.0, 1.0]);
        let p = sc(p, 1.0 / nrm(p));
        for k in 0..10 {
            for &x in &[7000.0, 42_164.0, 400_000.0, 1_500_000.0f64] {
                let h = if x < 50_000.0 { RE + (k as f64 - 5.0) / 5.0 * x * 0.004 } else { k as f64 * 1100.0 };
                out.push((format!("{jd}/shadow/{x}/{k}"), jd, add(sc(u, -x), sc(p, h)), [0.1, 7.0, 0.3]));
            }
        }
    }
    out
}

fn single_forces(ctx: &mut Ctx) {
    let tier = ctx.tier;
    let g = grid(tier);
    ctx.par(&g, |l, (key, jd, r, v)| {
        let c = ctx_of(Some(""), true, true);
        let st = state(*jd, *r, *v);
        for e in elements() {
            l.case("force", &format!("{e:?}/{key}").replace(' ', ""), || {
                if matches!(e, El::Geo(..)) && r[0].hypot(r[1]) < 1e-4 * nrm(*r) && nrm(*r) > RE {
                    return Ok(0); // the dependency's kernel is inexact there, see the assumptions
                }
                if matches!(e, El::Emp(_) | El::Per(..)) && nrm(*v) > 0.0 && nrm(cross(*r, *v)) < 1e-9 * nrm(*r) * nrm(*v) {
                    return Ok(0); // rounding decides whether the orbital plane exists
                }
                let got = accel(&*e.build(), &st, &c);
                match e.oracle(*jd, *r, *v) {
                    None => {
                        ensure!(got.is_err(), "accepted although the force is undefined here: {got:?}");
                        ensure!(!got.as_ref().unwrap_err().starts_with("panicked"), "{got:?}");
                        Ok(7)
                    }
                    Some(w) => {
                        let got = got?;
                        // conical shade is compared with a strip sum, so against full sunlight
                        let mut scale = nrm(w);
                        if let El::Srp(a, b, _) = e {
                            scale = nrm(srp(*jd, *r, a, b, ShadowModel::None));
                            if let El::Srp(_, _, ShadowModel::Cylindrical) = e {
                                // either answer is right within a millimetre of the edge
                                let sun = sun_at(*jd);
                                let u = sc(sun, 1.0 / nrm(sun));
                                let off = nrm(sub(*r, sc(u, dot(*r, u)))) - RE;
                                if off.abs() < 1e-1 * nrm(*r) / 7000.0 {
                                    return Ok(0);
                                }
                            }
                        }
                        if matches!(e, El::Per(..)) {
                            scale = 6e-9;
                        }
                        same("acceleration", got, w, e.tol() * scale + 1e-22)?;
                        Ok(hf(&got) | 1)
                    }
                }
            });
        }
    });
    // harmonics: each coefficient alone, every requested degree and order
    let mut hs = vec![];
    for n in 0..=5usize {
        for m in 0..=n.min(5) {
            for deg in 0..=6usize {
                for ord in 0..=5usize {
                    hs.push((n, m, deg, ord));
                }
            }
        }
    }
    ctx.par(&hs, |l, &(n, m, deg, ord)| {
        for &jd in &EPOCHS[..2] {
            for r in [[7000.0, 0.0, 0.0], [0.0, -7100.0, 300.0], [-3600.0, 4800.0, 3300.0], [20.0, 11.0, -6500.0], [26_000.0, 9_000.0, -12_000.0]] {
                l.case("harmonic", &format!("{n},{m}/{deg},{ord}/{jd}/{r:?}"), || {
                    let f = One(n, m, if n == 0 { 1.0 } else { 3e-4 }, if m == 0 { 0.0 } else { -2e-4 });
                    let c = DynamicsContext::builder().with_gravity(Arc::new(f)).build();
                    let got = accel(&Geopotential::new(deg, ord), &state(jd, r, [0.0; 3]), &c);
                    if deg > 5 || ord > deg || ord > 4 {
                        ensure!(got.is_err() && !got.as_ref().unwrap_err().starts_with("panicked"), "degree {deg} order {ord} accepted: {got:?}");
                        return Ok(3);
                    }
                    let cs = |a: usize, b: usize| (f.c_normalized(a, b).unwrap(), f.s_normalized(a, b).unwrap());
                    let w = geopot(jd, r, deg, ord, &cs);
                    let got = got?;
                    same("acceleration", got, w, if r[0].hypot(r[1]) < 0.01 * nrm(r) { 1e-9 } else { 2e-12 } * nrm(w))?;
                    Ok(hf(&got) | 1)
                });
            }
        }
    });
    // the built-in fields
    let mut l = Local::default();
    for n in 0..=8usize {
        for m in 0..=8usize {
            l.case("egm", &format!("{n},{m}"), || {
                let g = LowDegreeEarth;
                let (c, s) = (g.c_normalized(n, m).map_err(|e| e.to_string())?, g.s_normalized(n, m).map_err(|e| e.to_string())?);
                let (wc, ws) = if n == 0 && m == 0 { (1.0, 0.0) } else { EGM.iter().find(|e| (e.0, e.1) == (n, m)).map(|e| (e.2, e.3)).unwrap_or((0.0, 0.0)) };
                ensure!((c - wc).abs() <= 3e-3 * wc.abs() + 3e-9 * (n == 2 && m == 1) as u8 as f64, "C = {c:e} instead of {wc:e}");
                ensure!((s - ws).abs() <= 3e-3 * ws.abs() + 3e-9 * (n == 2 && m == 1) as u8 as f64, "S = {s:e} instead of {ws:e}");
                let t = TwoBodyEarth;
                ensure!(t.c_normalized(n, m).unwrap() == if n == 0 { 1.0 } else { 0.0 } || (n == 0 && m > 0), "two-body field has C{n}{m}");
                ensure!(t.s_normalized(n, m).unwrap() == 0.0 && t.max_degree() == 0 && t.max_order() == 0 && g.max_degree() == 4 && g.max_order() == 4, "declared limits");
                ensure!(t.mu().value() == MU && g.mu().value() == MU && t.reference_radius().value() == RE && g.reference_radius().value() == RE, "constants");
                Ok(hf(&[c, s]) | 1)
            });
        }
    }
    // the atmosphere turns with any angular velocity vector that it is given
    let om: Vec<V3> = vec![[0.0, 0.0, WE], [WE, 0.0, 0.0], [0.0, -2.0 * WE, 0.0], [3e-5, -1e-5, 7e-5], [0.0; 3], [0.0, 0.0, -WE]];
    for (oi, o) in om.iter().enumerate() {
        for (ri, r) in [[7000.0, 0.0, 0.0], [0.0, 6800.0, 500.0], [-3600.0, 4800.0, 3300.0], [100.0, 200.0, 7200.0]].into_iter().enumerate() {
            for (vi, v) in [[0.0, 7.5, 0.0], [0.3, -1.2, 7.0], [0.0; 3]].into_iter().enumerate() {
                l.case("drag-rotation", &format!("{oi}/{ri}/{vi}"), || {
                    let mut d = DragForce::with_omega(DragCoefficient::new(2.0), AreaToMass::new(0.02), InverseSeconds::new(o[2]));
                    d.omega_earth = affn::cartesian::Vector::new(o[0], o[1], o[2]);
                    let got = accel(&d, &state(2459000.25, r, v), &ctx_of(None, true, false))?;
                    let w = drag(r, v, 2.0, 0.02, *o).unwrap();
                    same("acceleration", got, w, 1e-7 * nrm(w) + 1e-22)?;
                    Ok(hf(&got) | 1)
                });
            }
        }
    }
    // third bodies: sums over every multiset of at most three, custom bodies included
    struct Fixed(V3, f64);
    impl ThirdBodyProvider for Fixed {
        fn name(&self) -> &'static str {
            "fixed"
        }
        fn gm(&self) -> GravitationalParameter {
            GravitationalParameter::new(self.1)
        }
        fn position_relative_to_origin(&self, _e: &Arc<dyn DynEphemeris + Send + Sync>, _t: JulianDate) -> Result<affn::cartesian::Displacement<GCRS, Kilometer>, DynamicsError> {
            Ok(affn::cartesian::Displacement::new(self.0[0], self.0[1], self.0[2]))
        }
    }
    for seq in sequences(4, 3) {
        for (ri, r) in [[7000.0, 0.0, 0.0], [-3600.0, 4800.0, 33_000.0], [0.0, 0.0, 0.0]].into_iter().enumerate() {
            l.case("bodies", &format!("{seq:?}/{ri}").replace(' ', ""), || {
                let jd = 2459000.25;
                let mut t = ThirdBody::new();
                let mut w = [0.0; 3];
                for &k in &seq {
                    let (b, mu, nt) = match k {
                        0 => (sun_at(jd), MU_SUN, t.with_sun()),
                        1 => (moon_at(jd), MU_MOON, t.with_moon()),
                        2 => ([9e5, -2e5, 1e5], 1e4, t.with(Box::new(Fixed([9e5, -2e5, 1e5], 1e4)))),
                        _ => ([-5e4, 1e4, 7e4], 77.0, t.with(Box::new(Fixed([-5e4, 1e4, 7e4], 77.0)))),
                    };
                    t = nt;
                    w = add(w, third(r, b, mu));
                }
                let got = accel(&t, &state(jd, r, [1.0; 3]), &ctx_of(Some(""), false, false))?;
                let scale = seq.iter().map(|k| [4e-9, 1e-9, 1e-9, 1e-8][*k as usize]).sum::<f64>().max(nrm(w));
                same("acceleration", got, w, 3e-6 * scale + 1e-19)?;
                let none = accel(&t, &state(jd, r, [1.0; 3]), &ctx_of(None, true, true));
                ensure!(none.is_ok() == seq.is_empty(), "without an ephemeris: {none:?}");
                Ok(hf(&got) | 1)
            });
        }
    }
    // with the real ephemeris the Sun and the Moon pull towards where they are
    for k in 0..40 {
        let jd = 2440000.5 + 531.37 * k as f64;
        l.case("real-sky", &format!("{k}"), || {
            let c = DynamicsContext::builder().with_ephemeris(Arc::new(Vsop87Ephemeris)).build();
            let t = JulianDate::new(jd);
            let (s, e, m) = (<Vsop87Ephemeris as siderust::ephemeris::Ephemeris>::sun_barycentric(t), <Vsop87Ephemeris as siderust::ephemeris::Ephemeris>::earth_barycentric(t), <Vsop87Ephemeris as siderust::ephemeris::Ephemeris>::moon_geocentric(t));
            let sun = sc(ecl_to_eq([s.x().value() - e.x().value(), s.y().value() - e.y().value(), s.z().value() - e.z().value()]), AU);
            let moon = ecl_to_eq([m.x().value(), m.y().value(), m.z().value()]);
            ensure!((1.45e8..1.53e8).contains(&nrm(sun)) && (3.5e5..4.1e5).contains(&nrm(moon)), "implausible ephemeris");
            let r = [30_000.0, -20_000.0, 22_000.0];
            let st = state(jd, r, [1.0, 2.0, 0.5]);
            same("Sun", accel(&*El::Sun.build(), &st, &c)?, third(r, sun, MU_SUN), 3e-6 * 2e-9)?;
            same("Moon", accel(&*El::Moon.build(), &st, &c)?, third(r, moon, MU_MOON), 3e-6 * 6e-9)?;
            let d = sub(r, sun);
            let want = sc(d, 1.3 * 0.02 * 4.56e-6 * (AU / nrm(d)).powi(2) / 1000.0 / nrm(d));
            same("light pressure", accel(&*El::Srp(1.3, 0.02, ShadowModel::None).build(), &st, &c)?, want, 3e-6 * nrm(want))?;
            Ok(hf(&sun) | 1)
        });
    }
    ctx.merge(l);
}

// ------------------------------------------------------------------------------------------
// Registry, configuration, missing providers
// ------------------------------------------------------------------------------------------

fn config_of(mask: usize) -> (ForceModelConfig, Vec<El>) {
    let per = [1e-9, -2e-9, 3e-9, 5e-10, -4e-10, 2e-9];
    let all = [El::Two, El::J2, El::Geo(3, 2), El::Sun, El::Moon, El::Drag(2.2, 0.01), El::Srp(1.3, 0.02, [ShadowModel::None, ShadowModel::Cylindrical, ShadowModel::Conical][mask % 3]), El::Rel, El::Emp([1e-9, -2e-9, 3e-9]), El::Per(1, 5553.0, per), El::Per(2, 6000.0, per)];
    let on = |k: usize| mask >> k & 1 == 1;
    let want: Vec<El> = (0..11).filter(|k| on(*k)).map(|k| all[k]).collect();
    let p = |t: f64| (JulianDate::new(T_REF), Second::new(t), per.map(acc_u));
    let cfg = ForceModelConfig {
        two_body: on(0),
        j2: on(1),
        harmonics: on(2).then_some((3, 2)),
        third_body_sun: on(3),
        third_body_moon: on(4),
        drag: on(5).then(|| (DragCoefficient::new(2.2), AreaToMass::new(0.01))),
        srp: on(6).then(|| (SrpCoefficient::new(1.3), AreaToMass::new(0.02), [ShadowModel::None, ShadowModel::Cylindrical, ShadowModel::Conical][mask % 3])),
        relativity: on(7),
        empirical_constant: on(8).then(|| (acc_u(1e-9), acc_u(-2e-9), acc_u(3e-9))),
        empirical_1cpr: on(9).then(|| p(5553.0)),
        empirical_2cpr: on(10).then(|| p(6000.0)),
    };
    (cfg, want)
}
const PROBE: (f64, V3, V3) = (2459000.25, [-4100.0, 5200.0, 2300.0], [-4.5, -4.9, 3.1]);
fn spec_key(s: &ForceModelSpec) -> String {
    format!("{s:?}")
}
fn registry(ctx: &mut Ctx) {
    let mut l = Local::default();
    l.case("config", "default", || {
        let a: Vec<String> = ForceModelConfig::default().to_specs().iter().map(spec_key).collect();
        let b: Vec<String> = [El::Two, El::J2].iter().map(|e| spec_key(&e.spec())).collect();
        ensure!(a == b, "the default is {a:?}");
        Ok(1)
    });
    ctx.merge(l);
    let masks: Vec<usize> = (0..1 << 11).collect();
    let thorough = ctx.tier == Tier::Thorough;
    ctx.par(&masks, |l, &m| {
        l.case("config", &format!("{m:011b}"), || {
            let (cfg, want) = config_of(m);
            let specs = cfg.to_specs();
            // (the order is part of what a run manifest records)
            let a: Vec<String> = specs.iter().map(spec_key).collect();
            let b: Vec<String> = want.iter().map(|e| spec_key(&e.spec())).collect();
            ensure!(a == b, "specs {a:?} instead of {b:?}");
            let reg = ForceModelRegistry::with_builtins();
            let f = reg.build(&specs).map_err(|e| e.to_string())?;
            let (jd, r, v) = PROBE;
            let st = state(jd, r, v);
            let c = ctx_of(Some(""), true, true);
            let mut parts = [0.0; 3];
            let mut w = [0.0; 3];
            let (mut mag, mut tol) = (1e-22, 1e-22);
            for e in &want {
                let x = accel(&*e.build(), &st, &c)?;
                parts = add(parts, x);
                mag += nrm(x);
                w = add(w, e.oracle(jd, r, v).unwrap());
                tol += e.tol() * nrm(x).max(1e-11);
            }
            let got = accel(&f, &st, &c)?;
            same("sum of the parts", got, parts, 1e-14 * mag)?;
            same("independent sum", got, w, tol + 1e-14 * mag)?;
            Ok(hf(&got) | 1)
        });
        // which providers are needed
        for p in 0..8usize {
            l.case("providers", &format!("{m:011b}/{p:03b}"), || {
                let (cfg, want) = config_of(m);
                let f = ForceModelRegistry::default().build(&cfg.to_specs()).map_err(|e| e.to_string())?;
                let c = ctx_of((p & 1 != 0).then_some(""), p & 2 != 0, p & 4 != 0);
                let ok = want.iter().all(|e| {
                    let n = e.needs();
                    (!n.0 || p & 1 != 0) && (!n.1 || p & 2 != 0) && (!n.2 || p & 4 != 0)
                });
                let (jd, r, v) = PROBE;
                let st = state(jd, r, v);
                let got = accel(&f, &st, &c);
                ensure!(got.is_ok() == ok, "providers {p:03b}: {got:?}, should be {}", if ok { "fine" } else { "refused" });
                if m % 7 == 0 || thorough {
                    let dt = Second::new(30.0);
                    let r1 = guard(|| Rk4Integrator { step: Second::new(30.0) }.propagate(&f, st, dt, &c))?.is_ok();
                    let r2 = guard(|| Dopri5Integrator { tolerances: tight() }.propagate(&f, st, dt, &c))?.is_ok();
                    let r3 = guard(|| Dop853Integrator { tolerances: tight() }.propagate(&f, st, dt, &c))?.is_ok();
                    let pr = Propagator::new(FixedRk4Adapter::new(Second::new(30.0)), f, PropagatorConfig::default(), c);
                    let r4 = guard(|| pr.propagate(st, dt))?.is_ok();
                    ensure!([r1, r2, r3, r4] == [ok; 4], "propagators answered {:?}, should be {ok}", [r1, r2, r3, r4]);
                }
                Ok(if ok { 3 } else { 5 })
            });
        }
    });
    let mut l = Local::default();
    // bodies that the ephemeris cannot give, densities that the atmosphere cannot give
    for down in ["", "sun", "earth", "moon", "sun,moon", "earth,moon"] {
        for e in elements() {
            l.case("failing-provider", &format!("{e:?}/{down}").replace(' ', ""), || {
                let (jd, r, v) = PROBE;
                let c = ctx_of(Some(down), true, true);
                let bad = match e {
                    El::Sun | El::Srp(..) => down.contains("sun") || down.contains("earth"),
                    El::Moon => down.contains("moon"),
                    El::Both => !down.is_empty(),
                    _ => false,
                };
                let got = accel(&*e.build(), &state(jd, r, v), &c);
                ensure!(got.is_ok() != bad, "with '{down}' missing: {got:?}");
                if let El::Drag(..) = e {
                    let c = DynamicsContext::builder().with_atmosphere(Arc::new(NoAir) as Arc<Dyn>).build();
                    let got = accel(&*e.build(), &state(jd, r, v), &c);
                    ensure!(got.is_err(), "density failure ignored: {got:?}");
                }
                Ok(if bad { 3 } else { 5 })
            });
        }
    }
    // the registry: every sequence of registrations
    #[derive(Clone)]
    struct Fac(&'static str, f64);
    impl ForceModelFactory for Fac {
        fn name(&self) -> &'static str {
            self.0
        }
        fn build(&self, _p: &ForceModelParams) -> Result<Box<DynSiderustForceModel>, PodDynErr> {
            Ok(Box::new(EmpiricalAcceleration::rtn(acc_u(self.1), acc_u(0.0), acc_u(0.0))))
        }
    }
    let builtin = ["drag", "empirical_1cpr", "empirical_2cpr", "empirical_constant", "geopotential", "j2", "relativity", "srp_cannonball", "third_body_moon", "third_body_sun", "third_body_sun_moon", "two_body"];
    let names = ["a", "b", "two_body"];
    for start in 0..2 {
        for seq in sequences(3, 4) {
            l.case("registrations", &format!("{start}/{seq:?}").replace(' ', ""), || {
                let mut reg = if start == 0 { ForceModelRegistry::new() } else { ForceModelRegistry::with_builtins() };
                let mut model: std::collections::BTreeMap<&str, Option<f64>> = Default::default();
                if start == 1 {
                    for b in builtin {
                        model.insert(b, None);
                    }
                }
                for (i, &k) in seq.iter().enumerate() {
                    let x = 1e-9 * (i + 1) as f64;
                    reg.register(Box::new(Fac(names[k as usize], x)));
                    model.insert(names[k as usize], Some(x));
                }
                let mut got: Vec<String> = reg.names().iter().map(|s| s.to_string()).collect();
                got.sort();
                ensure!(got == model.keys().map(|s| s.to_string()).collect::<Vec<_>>(), "names {got:?}");
                let (jd, r, v) = PROBE;
                for n in builtin.iter().chain(&["a", "b", "", "J2", "two_body "]) {
                    ensure!(reg.is_registered(n) == model.contains_key(n), "is_registered({n})");
                    let b = reg.build_one(&ForceModelSpec::named(*n));
                    match model.get(n) {
                        None => ensure!(matches!(&b, Err(PodDynErr::UnknownModel(x)) if x == n), "{n}: not refused"),
                        Some(Some(x)) => {
                            let a = accel(&*b.map_err(|e| e.to_string())?, &state(jd, r, v), &DynamicsContext::empty())?;
                            same(n, a, rtn(r, v, [*x, 0.0, 0.0]), 1e-20)?;
                        }
                        Some(None) => {}
                    }
                    let both = reg.build(&[ForceModelSpec::named("a"), ForceModelSpec::named(*n)]);
                    ensure!(both.is_ok() == (model.contains_key("a") && model.contains_key(n) && (reg.build_one(&ForceModelSpec::named(*n)).is_ok())), "composite of a and {n}");
                }
                Ok(hstr(&format!("{got:?}")))
            });
        }
    }
    // every name with every kind of parameters
    let params: Vec<ForceModelParams> = elements().iter().map(|e| e.spec().params).chain([ForceModelParams::Custom("x".into()), ForceModelParams::None]).collect();
    for n in builtin {
        for (pi, p) in params.iter().enumerate() {
            l.case("parameters", &format!("{n}/{pi}"), || {
                let got = ForceModelRegistry::with_builtins().build_one(&ForceModelSpec::with_params(n, p.clone()));
                use ForceModelParams as P;
                let ok = match n {
                    "geopotential" => matches!(p, P::Geopotential { .. }),
                    "drag" => matches!(p, P::Drag { .. }),
                    "srp_cannonball" => matches!(p, P::SrpCannonball { .. }),
                    "empirical_constant" => matches!(p, P::EmpiricalConstant { .. }),
                    "empirical_1cpr" => matches!(p, P::EmpiricalPeriodic { harmonic: PeriodicHarmonic::OncePerRev, .. }),
                    "empirical_2cpr" => matches!(p, P::EmpiricalPeriodic { harmonic: PeriodicHarmonic::TwicePerRev, .. }),
                    _ => true,
                };
                ensure!(got.is_ok() == ok, "{n} with {p:?} is {}", if ok { "refused" } else { "accepted" });
                Ok(if ok { 3 } else { 5 })
            });
        }
    }
    // order of the parts
    let els = [El::Two, El::J2, El::Moon, El::Drag(2.2, 0.01), El::Emp([1e-9, -2e-9, 3e-9])];
    for p in permutations(els.len()) {
        for k in 1..=els.len() {
            l.case("order", &format!("{p:?}/{k}").replace(' ', ""), || {
                let specs: Vec<ForceModelSpec> = p[..k].iter().map(|i| els[*i as usize].spec()).collect();
                let f = ForceModelRegistry::with_builtins().build(&specs).map_err(|e| e.to_string())?;
                ensure!(f.len() == k, "{} parts", f.len());
                let (jd, r, v) = PROBE;
                let c = ctx_of(Some(""), true, true);
                let w = p[..k].iter().fold([0.0; 3], |a, i| add(a, accel(&*els[*i as usize].build(), &state(jd, r, v), &c).unwrap()));
                let got = accel(&f, &state(jd, r, v), &c)?;
                same("sum", got, w, 1e-17)?;
                Ok(hf(&got) | 1)
            });
        }
    }
    ctx.merge(l);
}
use siderust::pod::propagation::PodDynamicsError as PodDynErr;
fn tight() -> IntegratorTolerances {
    IntegratorTolerances::uniform(1e-12, 1e-9, 1e-12)
}

// ------------------------------------------------------------------------------------------
// Propagation
// ------------------------------------------------------------------------------------------

fn orbits() -> Vec<(&'static str, V3, V3)> {
    let k = |a: f64, e: f64, i: f64, o: f64, w: f64, nu: f64| {
        let p = a * (1.0 - e * e);
        let r = p / (1.0 + e * nu.cos());
        let (x, y) = (r * nu.cos(), r * nu.sin());
        let q = (MU / p).sqrt();
        let (vx, vy) = (-q * nu.sin(), q * (e + nu.cos()));
        let rot = |a: f64, b: f64| {
            let (a, b) = (a * w.cos() - b * w.sin(), a * w.sin() + b * w.cos());
            [o.cos() * a - o.sin() * i.cos() * b, o.sin() * a + o.cos() * i.cos() * b, i.sin() * b]
        };
        (rot(x, y), rot(vx, vy))
    };
    let mut out = vec![];
    for (n, (r, v)) in [
        ("leo", k(6900.0, 0.001, 0.9, 0.4, 1.0, 0.2)),
        ("polar", k(7200.0, 0.01, 1.71, 2.4, 0.3, 4.0)),
        ("equator-retro", k(8000.0, 0.1, 3.14159, 0.0, 0.0, 2.0)),
        ("gto", k(24_400.0, 0.71, 0.1, 5.0, 3.1, 1.2)),
        ("geo", k(42_164.0, 0.0, 0.0, 0.0, 0.0, 1.0)),
        ("hyperbolic", k(-20_000.0, 1.4, 0.6, 1.0, 2.0, -0.4)),
    ] {
        out.push((n, r, v));
    }
    out
}
fn force_sets(tier: Tier) -> Vec<(String, Vec<El>)> {
    let per = [1e-9, -2e-9, 3e-9, 5e-10, -4e-10, 2e-9];
    let mut out: Vec<(String, Vec<El>)> = vec![
        ("two", vec![El::Two]),
        ("two+j2", vec![El::Two, El::J2]),
        ("geo44", vec![El::Geo(4, 4)]),
        ("two+bodies", vec![El::Two, El::Sun, El::Moon]),
        ("two+drag", vec![El::Two, El::Drag(2.2, 0.5)]),
        ("two+srp", vec![El::Two, El::Srp(1.5, 0.5, ShadowModel::None)]),
        ("two+rel+emp", vec![El::Two, El::Rel, El::Emp([1e-8, -2e-8, 3e-8])]),
        ("two+per", vec![El::Two, El::Per(1, 5553.0, per.map(|x| x * 100.0)), El::Per(2, 5553.0, per.map(|x| x * -70.0))]),
        ("all", vec![El::Geo(4, 4), El::Both, El::Drag(2.2, 0.01), El::Srp(1.3, 0.02, ShadowModel::Conical), El::Rel]),
    ]
    .into_iter()
    .map(|(n, v)| (n.to_string(), v))
    .collect();
    if tier == Tier::Thorough {
        // central gravity with every pair of the other elements
        let e: Vec<El> = elements().into_iter().filter(|e| !matches!(e, El::Two | El::Geo(..))).collect();
        for i in 0..e.len() {
            for j in i + 1..e.len() {
                out.push((format!("pair{i},{j}"), vec![El::Two, e[i], e[j]]));
            }
        }
    }
    out
}
fn compose(els: &[El]) -> SiderustCompositeModel {
    els.iter().fold(SiderustCompositeModel::empty(), |m, e| m.push(e.build()))
}
/// Independent integration of the independent accelerations.
fn reference(els: &[El], jd: f64, r: V3, v: V3, dt: f64) -> (V3, V3) {
    let n = (dt.abs() / 5.0).ceil().max(1.0) as usize;
    let h = dt / n as f64;
    // quick shade: outside the conical model's penumbra the disc sum is not needed
    let f = |t: f64, r: V3, v: V3| els.iter().fold([0.0; 3], |a, e| add(a, e.oracle(jd + t / 86400.0, r, v).unwrap()));
    let (mut r, mut v) = (r, v);
    for k in 0..n {
        let t = k as f64 * h;
        let a1 = f(t, r, v);
        let (r2, v2) = (add(r, sc(v, h / 2.0)), add(v, sc(a1, h / 2.0)));
        let a2 = f(t + h / 2.0, r2, v2);
        let (r3, v3) = (add(r, sc(v2, h / 2.0)), add(v, sc(a2, h / 2.0)));
        let a3 = f(t + h / 2.0, r3, v3);
        let (r4, v4) = (add(r, sc(v3, h)), add(v, sc(a3, h)));
        let a4 = f(t + h, r4, v4);
        r = add(r, sc(add(add(v, sc(v2, 2.0)), add(sc(v3, 2.0), v4)), h / 6.0));
        v = add(v, sc(add(add(a1, sc(a2, 2.0)), add(sc(a3, 2.0), a4)), h / 6.0));
    }
    (r, v)
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Meth {
    Rk4,
    Dp5,
    Dp8,
    PRk4,
    PDp5,
    PDp8,
}
const METHS: [Meth; 6] = [Meth::Rk4, Meth::Dp5, Meth::Dp8, Meth::PRk4, Meth::PDp5, Meth::PDp8];
fn run_method(m: Meth, els: &[El], s: OrbitState, dt: f64, c: &dyn Fn() -> DynamicsContext) -> Result<OrbitState, String> {
    let d = Second::new(dt);
    let f = compose(els);
    let step = Second::new(10.0);
    guard(|| match m {
        Meth::Rk4 => propagate_orbit(&Rk4Integrator { step }, &f, s, d, &c()).map_err(|e| e.to_string()),
        Meth::Dp5 => Dopri5Integrator { tolerances: tight() }.propagate(&f, s, d, &c()).map_err(|e| e.to_string()),
        Meth::Dp8 => Dop853Integrator { tolerances: tight() }.propagate(&f, s, d, &c()).map_err(|e| e.to_string()),
        Meth::PRk4 => Propagator::new(FixedRk4Adapter::new(step), f, PropagatorConfig::default(), c()).propagate(s, d).map_err(|e| e.to_string()),
        Meth::PDp5 => Propagator::new(principia::Dopri5::new(tight()), f, PropagatorConfig::default(), c()).propagate(s, d).map_err(|e| e.to_string()),
        Meth::PDp8 => Propagator::new(principia::Dop853::new(tight()), f, PropagatorConfig::default(), c()).propagate(s, d).map_err(|e| e.to_string()),
    })?
}
fn secs(a: &OrbitState, b: &OrbitState) -> f64 {
    (b.epoch - a.epoch).value()
}
fn near(what: &str, a: &OrbitState, r: V3, v: V3, tp: f64) -> Result<(), String> {
    let (gr, gv) = rv(a);
    let (dr, dv) = (nrm(sub(gr, r)), nrm(sub(gv, v)));
    ensure!(dr <= tp && dv <= tp * 3e-3, "{what}: off by {dr:e} km and {dv:e} km/s");
    Ok(())
}
fn laws(ctx: &mut Ctx) {
    let tier = ctx.tier;
    let spans: &[f64] = if ctx.tier == Tier::Quick { &[3700.0, -1200.0, 601.3, 37.5, -0.75, 1e-3, 0.0] } else { &[20_000.0, 3700.0, -3700.0, 1200.0, -1200.0, 601.3, 37.5, -0.75, 1e-3, 0.0] };
    let splits: &[f64] = if ctx.tier == Tier::Quick { &[0.0, 0.3, 1.0, 1.5, -0.4] } else { &[0.0, 0.1, 0.3, 0.5, 1.0, 1.5, -0.4] };
    let mut items = vec![];
    for o in 0..orbits().len() {
        for f in 0..force_sets(ctx.tier).len() {
            for &dt in spans {
                items.push((o, f, dt));
            }
        }
    }
    ctx.par(&items, |l, &(oi, fi, dt)| {
        let (on, r, v) = orbits()[oi];
        let (fname, els) = force_sets(tier)[fi].clone();
        let jd = 2459000.25;
        let s = state(jd, r, v);
        let c = || ctx_of(Some(""), true, true);
        let w = reference(&els, jd, r, v, dt);
        // an adaptive step may straddle a shadow edge
        let shady = els.iter().any(|e| matches!(e, El::Srp(_, _, ShadowModel::Cylindrical | ShadowModel::Conical)));
        let big = 1e-5 * (1.0 + dt.abs() / 1200.0) * if shady { 10.0 } else { 1.0 };
        for m in METHS {
            l.case("propagate", &format!("{m:?}/{on}/{fname}/{dt}"), || {
                let e = run_method(m, &els, s, dt, &c)?;
                near("end", &e, w.0, w.1, big)?;
                ensure!((secs(&s, &e) - dt).abs() < 1e-6, "epoch advanced by {} s", secs(&s, &e));
                if dt == 0.0 {
                    ensure!(rv(&e) == (r, v), "a span of zero moved the state");
                    return Ok(3);
                }
                let b = run_method(m, &els, e, -dt, &c)?;
                near("there and back", &b, r, v, big)?;
                ensure!(secs(&s, &b).abs() < 1e-6, "there and back ends {} s away", secs(&s, &b));
                for k in splits {
                    let mid = run_method(m, &els, s, k * dt, &c)?;
                    let e2 = run_method(m, &els, mid, dt - k * dt, &c)?;
                    let (er, ev) = rv(&e);
                    near(&format!("split at {k}"), &e2, er, ev, big * 6.0)?;
                    ensure!((secs(&e, &e2)).abs() < 1e-6, "epochs differ by {} s", secs(&e, &e2));
                }
                Ok(hf(&rv(&e).0) | 1)
            });
        }
        l.case("spacecraft", &format!("{on}/{fname}/{dt}"), || {
            let p = SpacecraftProperties::demo_leo();
            let f = compose(&els);
            let i = Rk4Integrator { step: Second::new(10.0) };
            let e = propagate_spacecraft(&i, &f, SpacecraftState { orbit: s, properties: p }, Second::new(dt), &c()).map_err(|e| e.to_string())?;
            let o = propagate_orbit(&i, &f, s, Second::new(dt), &c()).map_err(|e| e.to_string())?;
            ensure!(e.properties == p && e.orbit == o, "the spacecraft's orbit or properties differ");
            Ok(hf(&rv(&o).0) | 1)
        });
    });
    // step sizes: any step gives the same trajectory, impossible ones are refused
    let mut l = Local::default();
    let (jd, r, v) = (2459000.25, orbits()[0].1, orbits()[0].2);
    let s = state(jd, r, v);
    for &dt in &[900.0, -900.0, 10.0] {
        let w = reference(&[El::Two, El::J2], jd, r, v, dt);
        for &h in &[0.5, 1.0, 7.0, 10.0, 29.9, 30.0, -10.0, 45.0, 0.0, f64::NAN, f64::INFINITY] {
            l.case("step-size", &format!("{dt}/{h}"), || {
                let f = || compose(&[El::Two, El::J2]);
                let c = DynamicsContext::empty;
                let a = guard(|| Rk4Integrator { step: Second::new(h) }.propagate(&f(), s, Second::new(dt), &c()))?;
                let b = guard(|| Propagator::new(FixedRk4Adapter::new(Second::new(h)), f(), PropagatorConfig::default(), c()).propagate(s, Second::new(dt)))?;
                if h == 0.0 || h.is_nan() {
                    ensure!(a.is_err() && b.is_err(), "step {h} accepted");
                    return Ok(3);
                }
                if h.is_infinite() {
                    return Ok(0); // one step, or a refusal
                }
                let hh = h.abs();
                let tol = 1e-5 + 1e-6 * (hh / 10.0).powi(4);
                near("Rk4Integrator", &a.map_err(|e| e.to_string())?, w.0, w.1, tol)?;
                near("FixedRk4Adapter", &b.map_err(|e| e.to_string())?, w.0, w.1, tol)?;
                Ok(5)
            });
        }
    }
    // one step of the fixed-step adapter: never longer than asked for or than its size, then full steps again
    for &h in &[60.0, -60.0, 120.0, 0.5] {
        for &t in &[10.0, -10.0, 60.0, 59.0, 1e4, -1e4, 0.25, 0.0] {
            l.case("full-steps", &format!("{t}/{h}"), || {
                use principia::AdaptiveStepper;
                let f = compose(&[El::Two, El::J2]);
                let (n, used, next, _) = FixedRk4Adapter::new(Second::new(h)).step(&f, &s, Second::new(t), &DynamicsContext::empty()).map_err(|e| e.to_string())?;
                let want = if t.abs() < h.abs() { t } else { t.signum() * h.abs() };
                ensure!(used.value() == want && next.value() == t.signum() * h.abs(), "asked for {t}, took {} and offers {}", used.value(), next.value());
                ensure!((secs(&n, &s) - want).abs() < 1e-6 || (secs(&s, &n) - want).abs() < 1e-6, "the epoch moved by {}", secs(&n, &s));
                let w = reference(&[El::Two, El::J2], jd, r, v, want);
                near("one step", &n, w.0, w.1, 1e-5 + 1e-9 * want.abs().powi(5) / 1e3)?;
                Ok(hf(&rv(&n).0) | 1)
            });
        }
    }
    for &dt in &[f64::NAN, f64::INFINITY, f64::NEG_INFINITY] {
        l.case("bad-span", &format!("{dt}"), || {
            let f = compose(&[El::Two]);
            let r = guard(|| Rk4Integrator { step: Second::new(10.0) }.propagate(&f, s, Second::new(dt), &DynamicsContext::empty()))?;
            ensure!(r.is_err(), "a span of {dt} s gave {r:?}");
            Ok(3)
        });
    }
    // central gravity: energy, angular momentum, closed orbits
    let days = ctx.pick(1.0, 4.0);
    for (on, r, v) in orbits() {
        for m in METHS {
            for sgn in [1.0, -1.0] {
                l.case("invariants", &format!("{on}/{m:?}/{sgn}"), || {
                    let en = |r: V3, v: V3| dot(v, v) / 2.0 - MU / nrm(r);
                    let uj = |r: V3, v: V3| en(r, v) - MU * EARTH_J2 * RE * RE / (2.0 * nrm(r).powi(3)) * (1.0 - 3.0 * (r[2] / nrm(r)).powi(2));
                    let e = run_method(m, &[El::Two], state(jd, r, v), sgn * days * 43200.0, &DynamicsContext::empty)?;
                    let (r1, v1) = rv(&e);
                    ensure!(rel(en(r1, v1), en(r, v)) < 3e-8, "energy {} became {}", en(r, v), en(r1, v1));
                    let (h, h1) = (cross(r, v), cross(r1, v1));
                    ensure!(nrm(sub(h, h1)) < 3e-8 * nrm(h), "angular momentum {h:?} became {h1:?}");
                    let e = run_method(m, &[El::Two, El::J2], state(jd, r, v), sgn * days * 43200.0, &DynamicsContext::empty)?;
                    let (r1, v1) = rv(&e);
                    ensure!(rel(uj(r1, v1), uj(r, v)) < 3e-8, "energy with oblateness {} became {}", uj(r, v), uj(r1, v1));
                    ensure!((cross(r1, v1)[2] - h[2]).abs() < 3e-8 * nrm(h), "axial angular momentum changed");
                    let a = -MU / (2.0 * en(r, v));
                    if a > 0.0 {
                        let t = std::f64::consts::TAU * (a.powi(3) / MU).sqrt();
                        let e = run_method(m, &[El::Two], state(jd, r, v), sgn * t, &DynamicsContext::empty)?;
                        near("one revolution", &e, r, v, 1e-3 * a / 7000.0)?;
                    }
                    Ok(hf(&r1) | 1)
                });
            }
        }
    }
    ctx.merge(l);
}
fn events(ctx: &mut Ctx) {
    use principia::propagation::EventDirection as D;
    let mut items = vec![];
    for oi in [2usize, 3, 5] {
        for frac in [0.2, 0.5, 0.9] {
            for dir in 0..3 {
                for &dt in &[20_000.0, -20_000.0, 3_001.7] {
                    for &every in if ctx.tier == Tier::Quick { &[0.0, 33.333, 60.0, 60.0000005, 100.1, 977.3, 2500.0][..] } else { &[0.0, 10.0, 33.333, 60.0, 60.0000005, 100.1, 300.0, 977.3, 2500.0, 30000.0][..] } {
                        items.push((oi, frac, dir, dt, every));
                    }
                }
            }
        }
    }
    ctx.par(&items, |l, &(oi, frac, dir, dt, every)| {
        for m in [Meth::PRk4, Meth::PDp5, Meth::PDp8] {
            let (on, r, v) = orbits()[oi];
            l.case("events", &format!("{m:?}/{on}/{frac}/{dir}/{dt}/{every}"), || {
                let s = state(2459000.25, r, v);
                let en = dot(v, v) / 2.0 - MU / nrm(r);
                let a = -MU / (2.0 * en);
                let hv = cross(r, v);
                let e = (1.0 - dot(hv, hv) / MU / a).sqrt();
                let (lo, hi) = if e < 1.0 { (a * (1.0 - e), a * (1.0 + e)) } else { (a * (1.0 - e), 60_000.0) };
                let thr = lo + frac * (hi - lo);
                let d = [D::Rising, D::Falling, D::Either][dir];
                let ev = RadialThresholdEvent::new(Kilometers::new(thr)).direction(d);
                let cfg = PropagatorConfig { event_dt: (every > 0.0).then(|| Second::new(every)), ..PropagatorConfig::default() };
                let f = compose(&[El::Two]);
                let t = Second::new(dt);
                let c = DynamicsContext::empty();
                let res = guard(|| match m {
                    Meth::PRk4 => Propagator::new(FixedRk4Adapter::new(Second::new(20.0)), f, cfg, c).propagate_with_events(s, t, ev),
                    Meth::PDp5 => Propagator::new(principia::Dopri5::new(tight()), f, cfg, c).propagate_with_events(s, t, ev),
                    _ => Propagator::new(principia::Dop853::new(tight()), f, cfg, c).propagate_with_events(s, t, ev),
                })?
                .map_err(|e| e.to_string())?;
                // fine scan of the Kepler motion in steps of 5 s
                let mut want = vec![];
                let (mut x, mut y) = (r, v);
                let n = (dt.abs() / 5.0).ceil() as usize;
                let h = dt / n as f64;
                let mut marginal = false;
                for k in 0..n {
                    let (x2, y2) = reference(&[El::Two], 0.0, x, y, h);
                    let (g1, g2) = (nrm(x) - thr, nrm(x2) - thr);
                    if g1 * g2 < 0.0 {
                        let up = g2 > g1;
                        if dir == 2 || up == (dir == 0) {
                            want.push(k as f64 * h + h * g1 / (g1 - g2));
                        }
                    }
                    if k + 2 > n && (g1.abs() < 10.0) || k == 0 && g1.abs() < 1.0 {
                        marginal = true;
                    }
                    (x, y) = (x2, y2);
                }
                if marginal {
                    return Ok(0);
                }
                let got: Vec<f64> = res.events.iter().map(|o| secs(&s, &o.state)).collect();
                ensure!(got.len() == want.len(), "{} crossings reported at {got:?}, there are {} at {want:?}", got.len(), want.len());
                for (g, w) in got.iter().zip(&want) {
                    // located by straight interpolation over one step
                    ensure!((g - w).abs() < 400.0, "crossing at {g} s instead of {w} s");
                }
                near("end", res.samples.last().unwrap(), x, y, 2e-3)?;
                ensure!((secs(&s, res.samples.last().unwrap()) - dt).abs() < 1e-6, "last sample at {} s", secs(&s, res.samples.last().unwrap()));
                ensure!(rv(&res.samples[0]) == (r, v), "the first sample is not the start");
                if every > 0.0 {
                    let k = (dt.abs() / every - 1e-9).floor() as usize;
                    ensure!(res.samples.len() == k + 2, "{} samples instead of {}", res.samples.len(), k + 2);
                    for (i, q) in res.samples[..k + 1].iter().enumerate() {
                        let t = i as f64 * every * dt.signum();
                        ensure!((secs(&s, q) - t).abs() < 1e-5, "sample {i} at {} s instead of {t} s", secs(&s, q));
                    }
                }
                Ok(hf(&[got.len() as f64, res.samples.len() as f64, thr]) | 1)
            });
        }
    });
}

// ------------------------------------------------------------------------------------------
// State-transition matrices
// ------------------------------------------------------------------------------------------

type M6 = [[f64; 6]; 6];
fn mul6(a: &M6, b: &M6) -> M6 {
    let mut c = [[0.0; 6]; 6];
    for i in 0..6 {
        for j in 0..6 {
            c[i][j] = (0..6).map(|k| a[i][k] * b[k][j]).sum();
        }
    }
    c
}
/// Largest difference with rows and columns brought to comparable units.
fn dist6(a: &M6, b: &M6, t: f64) -> f64 {
    let mut m = 0.0f64;
    for i in 0..6 {
        for j in 0..6 {
            let u = |k: usize| if k < 3 { 1.0 } else { t };
            m = m.max((a[i][j] - b[i][j]).abs() * u(i) / u(j));
        }
    }
    m
}
fn det6(m: &M6) -> f64 {
    let mut a = *m;
    let mut d = 1.0;
    for k in 0..6 {
        let p = (k..6).max_by(|x, y| a[*x][k].abs().total_cmp(&a[*y][k].abs())).unwrap();
        if p != k {
            a.swap(p, k);
            d = -d;
        }
        d *= a[k][k];
        for i in k + 1..6 {
            let f = a[i][k] / a[k][k];
            for j in k..6 {
                a[i][j] -= f * a[k][j];
            }
        }
    }
    d
}
fn stm(ctx: &mut Ctx) {
    let tier = ctx.tier;
    let mut items = vec![];
    let spans: &[f64] = if ctx.tier == Tier::Quick { &[600.0, -600.0, 2400.0] } else { &[600.0, -600.0, 2400.0, -2400.0, 60.0, 7200.0] };
    for oi in 0..orbits().len() {
        for fi in 0..2 {
            for &dt in spans {
                items.push((oi, fi, dt));
            }
        }
    }
    ctx.par(&items, |l, &(oi, fi, dt)| {
        let (on, r, v) = orbits()[oi];
        let (fname, els) = force_sets(tier)[fi].clone();
        let jd = 2459000.25;
        let s = state(jd, r, v);
        let c = DynamicsContext::empty();
        let f = compose(&els);
        let key = format!("{on}/{fname}/{dt}");
        let t = Second::new(dt);
        let sc_t = 1000.0;
        let phi_of = |s: OrbitState, dt: f64| -> Result<(OrbitState, M6), String> {
            let p = Propagator::new(principia::Dop853::new(tight()), compose(&els), PropagatorConfig::default(), DynamicsContext::empty());
            let (e, m) = guard(|| p.propagate_with_stm(s, Second::new(dt)))?.map_err(|e| e.to_string())?;
            Ok((e, *m.as_array()))
        };
        // independent finite differences of the independent motion
        let mut fd = [[0.0; 6]; 6];
        for j in 0..6 {
            let d = if j < 3 { 1e-1 } else { 1e-4 };
            let go = |k: f64| {
                let (mut a, mut b) = (r, v);
                if j < 3 {
                    a[j] += k
                } else {
                    b[j - 3] += k
                }
                reference(&els, jd, a, b, dt)
            };
            let (p, q) = (go(d), go(-d));
            for i in 0..3 {
                fd[i][j] = (p.0[i] - q.0[i]) / (2.0 * d);
                fd[i + 3][j] = (p.1[i] - q.1[i]) / (2.0 * d);
            }
        }
        let size = dist6(&fd, &[[0.0; 6]; 6], sc_t);
        l.case("stm", &key, || {
            let (e, phi) = phi_of(s, dt)?;
            let w = reference(&els, jd, r, v, dt);
            near("end", &e, w.0, w.1, 1e-2)?;
            ensure!((secs(&s, &e) - dt).abs() < 1e-6, "epoch advanced by {} s", secs(&s, &e));
            let d = dist6(&phi, &fd, sc_t);
            ensure!(d < 2e-5 * size, "differs from finite differences by {d:e} (size {size:e})");
            let det = det6(&phi);
            ensure!((det - 1.0).abs() < 1e-3, "determinant {det}");
            let (_, back) = phi_of(e, -dt)?;
            let mut id = [[0.0; 6]; 6];
            for (i, r) in id.iter_mut().enumerate() {
                r[i] = 1.0;
            }
            let d = dist6(&mul6(&back, &phi), &id, sc_t);
            ensure!(d < 1e-3 * size, "there and back is off the identity by {d:e}");
            for k in [0.25, 0.5, 1.25] {
                let (m, p1) = phi_of(s, k * dt)?;
                let (_, p2) = phi_of(m, dt - k * dt)?;
                let d = dist6(&mul6(&p2, &p1), &phi, sc_t);
                ensure!(d < 2e-5 * size * 3.0, "split at {k}: off by {d:e}");
            }
            let (z, i0) = phi_of(s, 0.0)?;
            ensure!(z == s && i0 == id, "a span of zero is not the identity");
            Ok(hf(&phi[0]) | 1)
        });
        // arcs
        for n in [0usize, 1, 2, 5, 8] {
            l.case("arc", &format!("{key}/{n}"), || {
                let step = dt / 8.0;
                let arc = guard(|| VariationalPropagator { step: Second::new(step) }.propagate(&f, s, n, &c))?.map_err(|e| e.to_string())?;
                ensure!(arc.len() == n && arc.is_empty() == (n == 0) && arc.steps.len() == n, "{} steps", arc.len());
                ensure!(arc.final_state().is_some() == (n > 0) && arc.final_stm().is_some() == (n > 0), "final values");
                for (k, (st, phi)) in arc.steps.iter().enumerate() {
                    let span = step * (k + 1) as f64;
                    let (e, w) = phi_of(s, span)?;
                    let (er, ev) = rv(&e);
                    near(&format!("step {k}"), st, er, ev, 1e-2)?;
                    ensure!((secs(&s, st) - span).abs() < 1e-6, "step {k} is {} s in", secs(&s, st));
                    let d = dist6(phi.as_array(), &w, sc_t);
                    ensure!(d < 1e-4 * size.max(1.0), "step {k}: matrix off by {d:e}");
                }
                if n > 0 {
                    ensure!(arc.final_state() == Some(&arc.steps[n - 1].0) && arc.final_stm().unwrap().as_array() == arc.steps[n - 1].1.as_array(), "final values are not the last step's");
                }
                Ok(hstr(&format!("{key}{n}")))
            });
        }
        for (j, d) in [[1e-3, 0.0, 0.0, 0.0, 0.0, 0.0], [0.0, 2e-3, -1e-3, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 1e-6, 0.0, -2e-6], [1e-3, -1e-3, 1e-3, 1e-6, 1e-6, 1e-6]].into_iter().enumerate() {
            l.case("prediction", &format!("{key}/{j}"), || {
                for h in [10.0, -10.0, 25.0] {
                    let e = guard(|| validation::max_rel_stm_predict_error(&f, s, t, Second::new(h), d, &c))?.map_err(|e| e.to_string())?;
                    ensure!(e.is_finite() && e < 1e-3, "relative prediction error {e:e}");
                    // twice the deviation cannot be explained by the linear map of half of it
                    let e = guard(|| validation::max_rel_stm_predict_error(&f, s, t, Second::new(h), d.map(|x| x * 1e6), &c))?.map_err(|e| e.to_string())?;
                    ensure!(e > 1e-6 || dt.abs() < 100.0, "a deviation of thousands of kilometres is still linear ({e:e})");
                }
                Ok(3)
            });
        }
        l.case("parameter", &key, || {
            let i = Rk4Integrator { step: Second::new(10.0) };
            let mk = |p: f64| compose(&[El::Two, El::Emp([p, 0.0, -2.0 * p])]);
            let col = |eps: f64| guard(|| param_partials_central_diff(&i, s, t, &c, 1e-9, eps, mk));
            for bad in [0.0, -1e-9, f64::NAN, f64::INFINITY, f64::NEG_INFINITY] {
                ensure!(matches!(col(bad)?, Err(PodDynErr::InvalidParamStep(_))), "step {bad} accepted");
            }
            let a = col(1e-9)?.map_err(|e| e.to_string())?;
            let b = col(1e-8)?.map_err(|e| e.to_string())?;
            let go = |p: f64| reference(&[El::Two, El::Emp([p, 0.0, -2.0 * p])], jd, r, v, dt);
            let (p, q) = (go(1e-9 + 1e-7), go(1e-9 - 1e-7));
            let w: Vec<f64> = (0..6).map(|k| if k < 3 { p.0[k] - q.0[k] } else { p.1[k - 3] - q.1[k - 3] } / 2e-7).collect();
            let sp = w[..3].iter().fold(0.0f64, |m, x| m.max(x.abs()));
            let sv = w[3..].iter().fold(0.0f64, |m, x| m.max(x.abs()));
            for k in 0..6 {
                let s = if k < 3 { sp } else { sv };
                ensure!((a.0[k] - w[k]).abs() < 1e-2 * s + 2e-3 * 1e-9 / 1e-9 && (b.0[k] - w[k]).abs() < 1e-3 * s + 2e-4, "column {:?} {:?} instead of {w:?}", a.0, b.0);
            }
            let d = a.max_relative_difference(&b);
            let m = b.0.iter().fold(0.0f64, |m, x| m.max(x.abs()));
            let x = (0..6).fold(0.0f64, |m, k| m.max((a.0[k] - b.0[k]).abs())) / m;
            ensure!(close(d, x, 1e-12 + 1e-9 * x), "relative difference {d:e} instead of {x:e}");
            Ok(hf(&b.0) | 1)
        });
    });
    // forces without partial derivatives say so
    let mut l = Local::default();
    for e in elements() {
        for n in 0..3 {
            l.case("no-partials", &format!("{e:?}/{n}").replace(' ', ""), || {
                let els: Vec<El> = if n == 0 { vec![e] } else if n == 1 { vec![El::Two, e] } else { vec![e, El::J2] };
                let c = ctx_of(Some(""), true, true);
                let (_, r, v) = orbits()[0];
                let s = state(2459000.25, r, v);
                let got = guard(|| propagate_stm(&compose(&els), s, Second::new(60.0), &c))?;
                if let Ok((_, phi)) = &got {
                    // whoever answers must answer rightly
                    let mut fd = [[0.0; 6]; 6];
                    for j in 0..6 {
                        let d = if j < 3 { 1e-1 } else { 1e-4 };
                        let go = |k: f64| {
                            let (mut a, mut b) = (r, v);
                            if j < 3 {
                                a[j] += k
                            } else {
                                b[j - 3] += k
                            }
                            reference(&els, 2459000.25, a, b, 60.0)
                        };
                        let (p, q) = (go(d), go(-d));
                        for i in 0..3 {
                            fd[i][j] = (p.0[i] - q.0[i]) / (2.0 * d);
                            fd[i + 3][j] = (p.1[i] - q.1[i]) / (2.0 * d);
                        }
                    }
                    let d = dist6(phi.as_array(), &fd, 1000.0);
                    ensure!(d < 1e-3, "answers with a matrix that is off by {d:e}");
                }
                if matches!(e, El::Two | El::J2) {
                    ensure!(got.is_ok(), "refused: {:?}", got.err());
                }
                Ok(if got.is_ok() { 3 } else { 5 })
            });
        }
    }
    ctx.merge(l);
}

pub fn run(tier: Tier) -> Ctx {
    let mut ctx = Ctx::new(
        "C19",
        "exploration",
        tier,
        "every force is evaluated on a grid of states and epochs and compared with a separately derived acceleration; all 2^11 force configurations, provider subsets, registrations, part orders, integrators, spans, splits, step sizes and output spacings in the bounds are run and compared with an independent integration of the independent accelerations and with the conservation laws",
    );
    ctx.assumptions = vec![
        "the Earth rotation used for tesseral harmonics is the rotation angle at the state's epoch (documented approximation); the altitude for drag treats inertial axes as Earth-fixed (documented)".into(),
        "event times are compared loosely: the dependency interpolates linearly inside a step".into(),
        "the harmonic kernel of the dependency (principia) leaves out sectorial terms on the polar axis and carries a square root of three with a wrong ninth decimal, which shows within 1e-4 rad of the axis: states there are not compared".into(),
        "the low-degree coefficients come from an external dataset and are compared with the published values to 0.3 %".into(),
        "a geopotential force contains the central term of its field".into(),
    ];
    single_forces(&mut ctx);
    registry(&mut ctx);
    laws(&mut ctx);
    events(&mut ctx);
    stm(&mut ctx);
    ctx
}
