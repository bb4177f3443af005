//! C25: propagation of two-line element sets against independently computed mean-element motion.
use crate::core::*;
use siderust::astro::sgp4::{GravityModel, TlePropagator};
use siderust::formats::tle::{parse_tle, TLE};
use siderust::qtty::{Degrees, Minutes};
use tempoch::{JulianDate, UTC};
use std::f64::consts::{PI, TAU};

type V = [f64; 3];
const L1: &str = "1 00005U 58002B   00179.78495062  .00000023  00000-0  28098-4 0  4753";
const L2: &str = "2 00005  34.2682 348.7242 1859667 331.7664  19.3264 10.82419157413667";

fn nrm(a: V) -> f64 {
    (a[0] * a[0] + a[1] * a[1] + a[2] * a[2]).sqrt()
}
fn sub(a: V, b: V) -> V {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
fn ecc(m: f64, e: f64) -> f64 {
    let m = (m + PI).rem_euclid(TAU) - PI;
    let (mut a, mut b) = (-PI, PI);
    for _ in 0..200 {
        let c = 0.5 * (a + b);
        if c - e * c.sin() < m { a = c } else { b = c }
    }
    0.5 * (a + b)
}
struct El {
    inc: f64,
    raan: f64,
    e: f64,
    w: f64,
    m: f64,
    n: f64,
    nd: f64,
    ndd: f64,
}
/// (position, velocity, argument-of-latitude phase, semi-major axis)
fn oracle(k: &El, g: GravityModel, min: f64) -> (V, V, f64) {
    let (mu, re, j2) = match g {
        GravityModel::Wgs84 => (398_600.5, 6378.137, 1.082_629_989_05e-3),
        _ => (398_600.8, 6378.135, 1.082_616e-3),
    };
    let d = min / 1440.0;
    let n0 = (k.n + 2.0 * k.nd * d + 3.0 * k.ndd * d * d) * TAU / 86400.0;
    let a = (mu / (n0 * n0)).cbrt();
    let p = a * (1.0 - k.e * k.e);
    let f = j2 * (re / p).powi(2) * n0;
    let c = k.inc.to_radians().cos();
    let s = min * 60.0;
    let raan = k.raan.to_radians() - 1.5 * f * c * s;
    let w = k.w.to_radians() + 0.75 * f * (5.0 * c * c - 1.0) * s;
    let m = k.m.to_radians() + TAU * (k.n * d + k.nd * d * d + k.ndd * d * d * d) + 0.75 * f * (1.0 - k.e * k.e).sqrt() * (3.0 * c * c - 1.0) * s;
    let ea = ecc(m, k.e);
    let r = a * (1.0 - k.e * ea.cos());
    let q = (1.0 - k.e * k.e).sqrt();
    let (x, y) = (a * (ea.cos() - k.e), a * q * ea.sin());
    let (vx, vy) = (-a * a * n0 / r * ea.sin(), a * a * n0 / r * q * ea.cos());
    let rot = |x: f64, y: f64| -> V {
        let (u, v) = (x * w.cos() - y * w.sin(), x * w.sin() + y * w.cos());
        let (sy, sz) = (v * c, v * k.inc.to_radians().sin());
        [u * raan.cos() - sy * raan.sin(), u * raan.sin() + sy * raan.cos(), sz]
    };
    (rot(x, y), rot(vx, vy), a)
}
fn st(r: &siderust::astro::sgp4::TemeState) -> (V, V) {
    let (p, v) = (r.position(), r.velocity());
    ([p.x().value(), p.y().value(), p.z().value()], [v.x().value(), v.y().value(), v.z().value()])
}
fn tle(k: &El, bstar: f64) -> TLE {
    let mut t = parse_tle(L1, L2).unwrap();
    t.inclination = Degrees::new(k.inc);
    t.raan = Degrees::new(k.raan);
    t.eccentricity = k.e;
    t.argument_of_perigee = Degrees::new(k.w);
    t.mean_anomaly = Degrees::new(k.m);
    t.mean_motion = siderust::qtty::Quantity::new(k.n);
    t.mean_motion_dot = k.nd;
    t.mean_motion_ddot = k.ndd;
    t.bstar = bstar;
    t
}
fn jd(min: f64, p: &TlePropagator) -> JulianDate<UTC> {
    JulianDate::<UTC>::try_new(siderust::qtty::Quantity::new(p.epoch_jd_utc().raw().value() + min / 1440.0)).unwrap()
}
pub fn run(tier: Tier) -> Ctx {
    let mut ctx = Ctx::new("C25", "exploration", tier,
        "all combinations of eccentricity (0 to 0.999999), mean anomaly lattice with the neighbourhoods of perigee and apogee, plane, mean motion, its printed derivatives, drag term, gravity model and time (zero, forward, backward, many revolutions), each propagated by offset and by epoch; element sets to refuse. Oracle: independent mean-element motion with a bisection anomaly solver. Non-trivial: a state was compared.");
    ctx.assumptions = vec!["perigee above the Earth's surface wherever J2 drift is judged; the drag term's own (empirical) effect is only bounded".into()];
    // ---- the anomaly solver: every eccentricity and anomaly, at the epoch -------------------
    let mut es = vec![0.0, 1e-9, 1e-7, 1e-4, 0.01, 0.1, 0.3, 0.5, 0.7, 0.79, 0.799_999_9, 0.8, 0.800_000_1, 0.85, 0.9, 0.95, 0.97, 0.99, 0.995, 0.999, 0.9999, 0.99999, 0.999_999, 0.999_999_9];
    if tier == Tier::Thorough {
        es.extend((1..200).map(|i| i as f64 / 200.0));
    }
    let nm = ctx.pick(1440, 14_400);
    let mut ms: Vec<f64> = (0..nm).map(|i| i as f64 * 360.0 / nm as f64).collect();
    for k in 1..=12 {
        let d = 10f64.powi(-k);
        ms.extend([d, 3.0 * d, 360.0 - d, 360.0 - 3.0 * d, 180.0 - d, 180.0 + d]);
    }
    let ka: Vec<(f64, f64)> = es.iter().flat_map(|e| [0.5f64, 2.0, 15.5].map(|n| (*e, n))).collect();
    ctx.par(&ka, |l, &(e, n)| {
        for &m in &ms {
            l.case("epoch", &format!("e={e} n={n} m={m}"), || {
                let k = El { inc: 51.6, raan: 247.5, e, w: 130.5, m, n, nd: 0.0, ndd: 0.0 };
                let p = guard(|| TlePropagator::from_tle(&tle(&k, 0.0)))?.map_err(|x| format!("refused: {x}"))?;
                let s = guard(|| p.propagate_minutes(Minutes::new(0.0)))?.map_err(|x| format!("propagation at the epoch failed: {x}"))?;
                let (r, v) = st(&s);
                let (wr, wv, a) = oracle(&k, GravityModel::Wgs72, 0.0);
                // a rounding of the anomaly moves the body by up to a*eps/(1-e)
                let tol = 1e-9 * a / (1.0 - e).sqrt().max(1e-6) * if e > 0.99 { 1e2 } else { 1.0 };
                ensure!(nrm(sub(r, wr)) < tol, "position {r:?} instead of {wr:?} ({:.3e} km off, allowed {tol:.1e})", nrm(sub(r, wr)));
                let vt = 1e-8 * nrm(wv) / (1.0 - e).max(1e-9);
                ensure!(nrm(sub(v, wv)) < vt, "velocity {v:?} instead of {wv:?}");
                ensure!((s.epoch().raw().value() - p.epoch_jd_utc().raw().value()).abs() < 1e-9, "epoch");
                Ok(hf(&r))
            });
        }
    });
    // ---- motion ---------------------------------------------------------------------------------
    let incs = [0.0, 28.5, 63.434_9, 90.0, 98.2, 150.0, 180.0];
    let angs = [(0.0, 0.0, 0.0), (247.5, 130.5, 325.0), (359.999, 270.0, 180.0), (90.0, 359.9, 0.001)];
    let orb: Vec<(f64, f64)> = vec![(15.9, 0.0), (15.5, 0.000_67), (14.2, 0.05), (12.0, 0.12), (2.005_6, 0.74), (1.002_7, 0.000_2), (1.002_7, 0.3), (0.3, 0.9), (6.4, 0.4)];
    let ders = [(0.0, 0.0), (2.3e-4, 0.0), (-1.1e-3, 0.0), (5e-3, 1e-4), (-1e-4, -2e-6)];
    let mut times = vec![0.0, 1e-3, 1.0, -1.0, 37.3, 90.0, -90.0, 720.0, 1440.0, -1440.0, 4321.7, -10_080.0, 14_400.0];
    if tier == Tier::Thorough {
        times.extend((1..60).map(|i| (i as f64 - 30.0) * 233.3));
    }
    let idx = product(&[incs.len(), angs.len(), orb.len(), ders.len()]);
    ctx.par(&idx, |l, ix| {
        let (n, e) = orb[ix[2]];
        let (raan, w, m) = angs[ix[1]];
        let (nd, ndd) = ders[ix[3]];
        let k = El { inc: incs[ix[0]], raan, e, w, m, n, nd, ndd };
        for (gi, g) in [GravityModel::Wgs72, GravityModel::Wgs72Iau, GravityModel::Wgs84].into_iter().enumerate() {
            for bstar in [0.0, 2.8e-4, -1e-3] {
                if gi == 1 && bstar != 0.0 {
                    continue;
                }
                for &t in &times {
                    l.case("motion", &format!("n={n} e={e} i={} raan={raan} w={w} m={m} ndot={nd} nddot={ndd} model={gi} bstar={bstar} t={t}", k.inc), || {
                        let p = guard(|| TlePropagator::from_tle_with_model(&tle(&k, bstar), g))?.map_err(|x| format!("refused: {x}"))?;
                        ensure!(p.gravity_model() == g, "model");
                        let rev = n + 2.0 * nd * t / 1440.0 + 3.0 * ndd * (t / 1440.0).powi(2);
                        let res = guard(|| p.propagate_minutes(Minutes::new(t)))?;
                        if rev <= 0.0 {
                            ensure!(res.is_err(), "propagated beyond zero mean motion");
                            return Ok(1);
                        }
                        let s = res.map_err(|x| format!("failed: {x}"))?;
                        let (r, v) = st(&s);
                        let (wr, wv, a) = oracle(&k, g, t);
                        // the empirical drag term: 1e-5*bstar rev/day per day on the mean motion
                        let drag = 1e-5 * bstar.abs() * t.abs() / 1440.0 / n;
                        let tol = a * (1e-8 + 20.0 * drag) / (1.0 - e).powi(2);
                        ensure!(nrm(sub(r, wr)) < tol, "position {r:?} instead of {wr:?} ({:.3e} km off, allowed {tol:.1e})", nrm(sub(r, wr)));
                        ensure!(nrm(sub(v, wv)) < nrm(wv) * (1e-8 + 20.0 * drag) / (1.0 - e).powi(3), "velocity {v:?} instead of {wv:?}");
                        // the same instant by epoch
                        let s2 = guard(|| p.propagate_at(jd(t, &p)))?.map_err(|x| format!("failed at epoch: {x}"))?;
                        let (r2, v2) = st(&s2);
                        ensure!(nrm(sub(r, r2)) < nrm(v) * 1e-4 + 1e-6, "by offset {r:?}, by epoch {r2:?}");
                        ensure!(nrm(sub(v, v2)) < 1e-3, "velocity by offset {v:?}, by epoch {v2:?}");
                        let (e1, e2) = (s.epoch().raw().value(), s2.epoch().raw().value());
                        ensure!((e1 - e2).abs() < 2e-9 && (e1 - p.epoch_jd_utc().raw().value() - t / 1440.0).abs() < 2e-9, "epochs {e1} / {e2}");
                        // velocity is the rate of position up to the slow drifts
                        let h = 1e-3;
                        let f = |x: f64| guard(|| p.propagate_minutes(Minutes::new(x)))?.map(|y| st(&y).0).map_err(|x| x.to_string());
                        let (b, c) = (f(t - h)?, f(t + h)?);
                        let fd = sub(c, b).map(|x| x / (2.0 * h * 60.0));
                        let grow = a * (2.0 * nd.abs() + 6.0 * (ndd * t / 1440.0).abs()) / rev / 86400.0;
                        ensure!(nrm(sub(fd, v)) < 6e-3 * nrm(v) / (1.0 - e) + 3.0 * grow, "velocity {v:?}, rate of position {fd:?}");
                        Ok(hf(&r))
                    });
                }
            }
        }
    });
    // ---- refusals -----------------------------------------------------------------------------------
    let mut l = Local::default();
    let base = || El { inc: 51.6, raan: 247.5, e: 0.001, w: 130.5, m: 325.0, n: 15.5, nd: 0.0, ndd: 0.0 };
    for (name, v) in [("1", 1.0), ("1.2", 1.2), ("-0.1", -0.1), ("nan", f64::NAN), ("inf", f64::INFINITY)] {
        l.case("refuse", &format!("eccentricity {name}"), || {
            ensure!(guard(|| TlePropagator::from_tle(&tle(&El { e: v, ..base() }, 0.0)))?.is_err(), "accepted");
            Ok(1)
        });
    }
    for (name, v) in [("0", 0.0), ("-15", -15.0), ("nan", f64::NAN), ("inf", f64::INFINITY)] {
        l.case("refuse", &format!("mean motion {name}"), || {
            ensure!(guard(|| TlePropagator::from_tle(&tle(&El { n: v, ..base() }, 0.0)))?.is_err(), "accepted");
            Ok(1)
        });
    }
    for (name, k) in [("inclination", El { inc: f64::NAN, ..base() }), ("node", El { raan: f64::NAN, ..base() }), ("perigee", El { w: f64::INFINITY, ..base() }), ("anomaly", El { m: f64::NAN, ..base() }), ("ndot", El { nd: f64::NAN, ..base() })] {
        l.case("refuse", &format!("non-finite {name}"), || {
            let r = guard(|| TlePropagator::from_tle(&tle(&k, 0.0)).and_then(|p| p.propagate_minutes(Minutes::new(10.0))))?;
            ensure!(r.is_err(), "produced a state");
            Ok(1)
        });
    }
    for t in [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e300, -1e300] {
        l.case("refuse", &format!("time {t}"), || {
            let p = TlePropagator::from_tle(&tle(&base(), 0.0)).map_err(|e| e.to_string())?;
            match guard(|| p.propagate_minutes(Minutes::new(t)))? {
                Ok(s) => { let (r, v) = st(&s); ensure!(t.is_finite() && r.iter().chain(&v).all(|x| x.is_finite()), "state {r:?}"); Ok(2) }
                Err(_) => Ok(1),
            }
        });
    }
    // decay: the mean motion runs out
    for nd in [-1.0, -0.5] {
        for d in [1.0, 10.0, 20.0, 100.0] {
            l.case("refuse", &format!("ndot {nd} after {d} days"), || {
                let p = TlePropagator::from_tle(&tle(&El { nd, ..base() }, 0.0)).map_err(|e| e.to_string())?;
                let ok = 15.5 + 2.0 * nd * d > 0.0;
                let r = guard(|| p.propagate_minutes(Minutes::new(d * 1440.0)))?;
                ensure!(r.is_ok() == ok, "mean motion {} rev/day: {:?}", 15.5 + 2.0 * nd * d, r.map(|s| st(&s)));
                Ok(1)
            });
        }
    }
    ctx.merge(l);
    ctx
}
