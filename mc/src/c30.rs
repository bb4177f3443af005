//! C30: tracking observation models. Every combination of geometry, delay model, clock provider,
//! frequency and correction pipeline on the real code, against the published measurement equations.
use crate::core::*;
use qtty::{Hertz, Meter};
use siderust::astro::dynamics::{Position, Velocity};
use siderust::coordinates::frames::GCRS;
use siderust::pod::observation::batch::ObservationBatch;
use siderust::pod::observation::corrections::*;
use siderust::pod::observation::gnss_obs::*;
use siderust::pod::observation::obs_trait::*;
use siderust::pod::observation::provider_bundle::{NullProviderBundle, ProviderBundle};
use siderust::pod::observation::slr_obs::SlrNormalPointObs;
use siderust::time::JulianDate;
use std::f64::consts::PI;

const C: f64 = 299_792_458.0;
const GM: f64 = 3.986_004_418e14;
const OMEGA: f64 = 7.292_115_146_706_979e-5;
const L1: f64 = 1_575.42e6;
type V3 = [f64; 3];
fn dot(a: V3, b: V3) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
fn norm(a: V3) -> f64 {
    dot(a, a).sqrt()
}
fn sub(a: V3, b: V3) -> V3 {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
fn pos(p: V3) -> Position<GCRS> {
    Position::<GCRS>::new(p[0], p[1], p[2])
}
fn vel(p: V3) -> Velocity<GCRS> {
    Velocity::<GCRS>::new(p[0], p[1], p[2])
}
fn st(p: V3, v: V3) -> CartesianState {
    CartesianState::new(JulianDate::new(2_460_000.5).to_j2000s(), pos(p), vel(v))
}

/// Clock tables keyed by satellite and epoch, so that asking with the wrong key shows.
struct Clocks {
    rx: f64,
    sat: f64,
}
fn key(prn: &str, jd: f64) -> f64 {
    prn.bytes().map(|b| b as f64).sum::<f64>() + 10.0 * (jd - 2_460_000.0)
}
impl ProviderBundle for Clocks {
    fn gnss_satellite_state_gcrs(&self, _: &str, _: JulianDate) -> Option<(Position<GCRS>, Velocity<GCRS>)> {
        None
    }
    fn gnss_satellite_clock_m(&self, prn: &str, epoch: JulianDate) -> Meter {
        Meter::new(self.sat * key(prn, epoch.raw().value()))
    }
    fn receiver_clock_m(&self) -> Meter {
        Meter::new(self.rx)
    }
    fn station_gcrs_km(&self, _: &str, _: JulianDate) -> Option<Position<GCRS>> {
        None
    }
}

// ---- published models
fn saastamoinen(el: f64) -> f64 {
    // Standard atmosphere; the mapping is limited at sin E = 0.07.
    0.002277 * (1013.25 + (1255.0 / 288.15 + 0.05) * 11.691) / el.sin().max(0.07)
}
fn klobuchar(p: &KlobucharParams) -> f64 {
    let psi = 0.0137 / (p.elevation_sc + 0.11) - 0.022;
    let phi_i = (p.receiver_lat_sc + psi * (p.azimuth_sc * PI).cos()).clamp(-0.416, 0.416);
    let lam = p.receiver_lon_sc + psi * (p.azimuth_sc * PI).sin() / (phi_i * PI).cos();
    let phi_m = phi_i + 0.064 * ((lam - 1.617) * PI).cos();
    let t = (43200.0 * lam + p.utc_seconds).rem_euclid(86400.0);
    let poly = |c: &[f64; 4]| (0..4).map(|k| c[k] * phi_m.powi(k as i32)).sum::<f64>();
    let amp = poly(&p.alpha).max(0.0);
    let per = poly(&p.beta).max(72000.0);
    let x = 2.0 * PI * (t - 50400.0) / per;
    let f = 1.0 + 16.0 * (0.53 - p.elevation_sc).powi(3);
    f * C * (5e-9 + if x.abs() < PI / 2.0 { amp * x.cos() } else { 0.0 })
}
fn iono(m: &IonoModel, f: f64) -> f64 {
    match m {
        IonoModel::None | IonoModel::IonoFree => 0.0,
        // Within 1 MHz of L1, or without a frequency, the L1 delay applies as it stands.
        IonoModel::Klobuchar(p) if !(f > 0.0) || (f - L1).abs() <= 1e6 => klobuchar(p),
        IonoModel::Klobuchar(p) => klobuchar(p) * (L1 / f) * (L1 / f),
    }
}
fn trop(m: &TropModel) -> f64 {
    match m {
        TropModel::None => 0.0,
        TropModel::Saastamoinen { elevation_rad } => saastamoinen(*elevation_rad),
    }
}
/// rho + clocks + Sagnac - relativity, in metres.
fn range(rx: V3, sat: V3, sv: V3, dtr: f64, dts: f64) -> f64 {
    let rel = -2.0 * dot(sat, sv) * 1e6 / C;
    norm(sub(rx, sat)) * 1e3 + dtr - dts - rel + OMEGA * (sat[0] * rx[1] - sat[1] * rx[0]) * 1e6 / C
}

fn receivers() -> Vec<V3> {
    vec![[7000.0, 0.0, 0.0], [-4000.0, 5200.0, 1800.0], [0.0, 0.0, 6378.0], [3000.0, -5400.0, -1500.0], [0.0; 3]]
}
fn transmitters() -> Vec<(V3, V3)> {
    vec![
        ([26560.0, 0.0, 0.0], [0.0, 3.87, 0.0]),
        ([26000.0, 3000.0, -4000.0], [-0.5, 3.0, 2.2]),
        ([-15000.0, 21000.0, 6000.0], [0.04, -1.5, 3.5]),
        ([0.0, 0.0, -26560.0], [3.8, 0.0, 0.1]),
        ([7000.0, 0.0, 0.0], [0.0, 7.5, 0.0]),
        ([-29600.0, -10.0, 20.0], [0.07, 3.6, -0.5]),
    ]
}
fn klob(c: &[usize]) -> KlobucharParams {
    let pick = |a: &[f64], i: usize| a[i];
    let mut p = KlobucharParams::gps_default();
    p.receiver_lat_sc = pick(&[-0.5, -0.2, 0.0, 0.1, 0.45], c[0]);
    p.receiver_lon_sc = pick(&[0.0, 0.3, 1.0, 1.9], c[1]);
    p.elevation_sc = pick(&[0.0, 0.03, 0.25, 0.5], c[2]);
    p.azimuth_sc = pick(&[0.0, 0.5, 0.77, 1.0, 1.9], c[3]);
    p.utc_seconds = 3600.0 * 1.7 * c[4] as f64;
    if c[5] == 1 {
        p.alpha = [1.2e-8, -2.2e-8, 1e-7, 3e-7];
        p.beta = [100000.0, 16384.0, 65536.0, -6e5];
    } else if c[5] == 2 {
        p.alpha = [-1e-8, 0.0, 0.0, 0.0]; // negative amplitude: floored at zero
        p.beta = [50000.0, 0.0, 0.0, 0.0]; // short period: floored at 72 000 s
    }
    p
}

fn gnss(ctx: &Ctx) {
    let rxs = receivers();
    let txs = transmitters();
    let trops = [
        TropModel::None,
        TropModel::Saastamoinen { elevation_rad: -0.1 },
        TropModel::Saastamoinen { elevation_rad: 0.0 },
        TropModel::Saastamoinen { elevation_rad: 0.06 },
        TropModel::Saastamoinen { elevation_rad: 0.08 },
        TropModel::Saastamoinen { elevation_rad: 0.7 },
        TropModel::Saastamoinen { elevation_rad: PI / 2.0 },
    ];
    let ionos = [
        IonoModel::None,
        IonoModel::IonoFree,
        IonoModel::Klobuchar(klob(&[2, 1, 2, 2, 8, 0])),
        IonoModel::Klobuchar(klob(&[3, 2, 1, 4, 1, 1])),
    ];
    let freqs = [L1, L1 + 0.5e6, 1_227.6e6, 1_176.45e6, 0.0];
    let clocks = [(0.0, 0.0), (123.25, 0.0), (0.0, 0.5), (-3e5, 77.125)];
    let items = product(&[rxs.len(), txs.len(), trops.len(), ionos.len()]);
    ctx.par(&items, |l, c| {
        let (rx, (sat, sv)) = (rxs[c[0]], txs[c[1]]);
        let (tr, io) = (trops[c[2]], ionos[c[3]].clone());
        for (fi, &f) in freqs.iter().enumerate() {
            for (ci, &(dtr, k)) in clocks.iter().enumerate() {
                for (prn, jd) in [("G01", 2_460_000.5), ("E11", 2_460_003.25)] {
                    let prov = Clocks { rx: dtr, sat: k };
                    let dts = k * key(prn, jd);
                    l.case("pseudorange", &format!("{c:?},f={fi},clk={ci},{prn}"), || {
                        for measured in [0.0, 2.1e7] {
                            let o = GnssPseudorangeObs { prn: prn.into(), epoch: JulianDate::new(jd), measured_m: Meter::new(measured), sigma: Meter::new(0.7), sat_pos_gcrs_km: pos(sat), sat_vel_gcrs_km_s: vel(sv), trop: tr, iono: io.clone(), frequency_hz: Hertz::new(f) };
                            let got = o.residual(&st(rx, [0.0, 7.0, 1.0]), &prov).map_err(|e| e.to_string())?;
                            let want = measured - (range(rx, sat, sv, dtr, dts) + trop(&tr) + iono(&io, f));
                            ensure!((got - want).abs() < 1e-6, "residual {got} instead of {want}");
                            ensure!(Observation::obs_type(&o) == ObsType::GnssPseudorange && Observation::sigma(&o).value() == 0.7 && Observation::epoch(&o) == JulianDate::new(jd), "description");
                            let any = AnyObservation::any_residual(&o, &st(rx, [0.0, 7.0, 1.0]), &prov).map_err(|e| e.to_string())?;
                            ensure!(matches!(any, ObsResidual::Scalar(x) if x == got), "dynamic residual {any:?}");
                        }
                        Ok(hf(&[range(rx, sat, sv, dtr, dts), f]))
                    });
                    l.case("carrier", &format!("{c:?},f={fi},clk={ci},{prn}"), || {
                        for n in [0, 1, -250_000, i32::MAX] {
                            let o = GnssCarrierPhaseObs { prn: prn.into(), epoch: JulianDate::new(jd), measured_m: Meter::new(2.0e7), sigma: Meter::new(0.003), sat_pos_gcrs_km: pos(sat), sat_vel_gcrs_km_s: vel(sv), trop: tr, iono: io.clone(), frequency_hz: Hertz::new(f), integer_ambiguity: n };
                            let got = o.residual(&st(rx, [0.0, 7.0, 1.0]), &prov).map_err(|e| e.to_string())?;
                            let lam = if f > 0.0 { C / f } else { C / L1 };
                            // Without a frequency the code uses a rounded L1 wavelength (19.03 cm).
                            let lam_tol = if f > 0.0 { 0.0 } else { 1e-5 };
                            let want = 2.0e7 - (range(rx, sat, sv, dtr, dts) + trop(&tr) - iono(&io, f) + lam * n as f64);
                            ensure!((got.residual_m - want).abs() < 1e-6 + lam_tol * (n as f64).abs(), "residual {} instead of {want}", got.residual_m);
                            ensure!((got.cycles * lam - got.residual_m).abs() <= (1e-12 + lam_tol * 6.0) * got.residual_m.abs() + 1e-12, "{} cycles of {lam} m for {} m", got.cycles, got.residual_m);
                            ensure!(Observation::obs_type(&o) == ObsType::GnssCarrierPhase && Observation::sigma(&o).value() == 0.003 && Observation::epoch(&o) == JulianDate::new(jd), "description");
                            let any = AnyObservation::any_residual(&o, &st(rx, [0.0, 7.0, 1.0]), &prov).map_err(|e| e.to_string())?;
                            ensure!(matches!(any, ObsResidual::Phase(x) if x == got), "dynamic residual {any:?}");
                        }
                        Ok(hf(&[range(rx, sat, sv, dtr, dts), f, 1.0]))
                    });
                }
            }
        }
    });
    // The broadcast ionosphere over its whole argument space.
    let nt = ctx.pick(14, 15);
    let grid = product(&[5, 4, 4, 5, nt, 3]);
    ctx.par(&grid, |l, c| {
        l.case("klobuchar", &format!("{c:?}"), || {
            let p = klob(c);
            let mk = |iono| GnssPseudorangeObs { prn: "G01".into(), epoch: JulianDate::new(2_460_000.5), measured_m: Meter::new(0.0), sigma: Meter::new(1.0), sat_pos_gcrs_km: pos([7001.0, 0.0, 0.0]), sat_vel_gcrs_km_s: vel([0.0; 3]), trop: TropModel::None, iono, frequency_hz: Hertz::new(L1) };
            let s = st([7000.0, 0.0, 0.0], [0.0; 3]);
            let d = mk(IonoModel::None).residual(&s, &NullProviderBundle).map_err(|e| e.to_string())? - mk(IonoModel::Klobuchar(p)).residual(&s, &NullProviderBundle).map_err(|e| e.to_string())?;
            let want = klobuchar(&p);
            // At the edge of daylight the cosine vanishes, so either branch agrees.
            ensure!((d - want).abs() < 1e-7, "delay {d} instead of {want}");
            ensure!(d >= 5e-9 * C * 0.99, "delay {d} below the night value");
            Ok(hf(&[want]))
        });
    });
}

fn slr(ctx: &Ctx) {
    let stations: Vec<V3> = vec![[6378.0, 0.0, 0.0], [-4000.0, 4700.0, 1500.0], [0.0, 0.0, 6357.0]];
    let sats: Vec<(V3, V3)> = vec![
        ([12270.0, 0.0, 0.0], [0.0, 5.7, 0.0]),
        ([-7000.0, 8000.0, 5000.0], [-3.0, -4.0, 2.2]),
        ([100.0, -20.0, 6900.0], [7.5, 0.1, 0.0]),
        ([0.0, 384400.0, 1000.0], [-1.0, 0.0, 0.1]),
    ];
    let els = [-0.2, 0.0, 3f64.to_radians(), 0.0525, 0.2, 1.0, PI / 2.0];
    let lams = [0.355, 0.423, 0.532, 0.694, 1.064];
    let items = product(&[stations.len(), sats.len(), els.len(), lams.len(), 3]);
    ctx.par(&items, |l, c| {
        l.case("slr", &format!("{c:?}"), || {
            let (s, (p, v), el, lam) = (stations[c[0]], sats[c[1]], els[c[2]], lams[c[3]]);
            let measured = [0.0, 1.2e7, 7.7e8][c[4]];
            let o = SlrNormalPointObs { station_id: "7840".into(), epoch: JulianDate::new(2_460_001.5), measured_m: Meter::new(measured), sigma: Meter::new(0.01), station_gcrs_km: pos(s), sat_pos_gcrs_km: pos(p), sat_vel_gcrs_km_s: vel(v), elevation_rad: el, wavelength_um: lam };
            let got = o.residual(&st([7000.0, 0.0, 0.0], [0.0; 3]), &NullProviderBundle).map_err(|e| e.to_string())?;
            // One light-time step back along the velocity.
            let dt = norm(sub(s, p)) * 1e3 / C;
            let q = [0, 1, 2].map(|k| p[k] - v[k] * dt);
            let rho = norm(sub(s, q)) * 1e3;
            let e = el.max(3f64.to_radians());
            let zen = (0.9650 + 0.0164 / lam.powi(2) + 0.000228 / lam.powi(4)) * 0.002277 * 1013.25;
            let t = zen / (e.sin() + 0.0014 / (e.tan() + 0.045));
            let (a, b) = (norm(s) * 1e3, norm(q) * 1e3);
            let rel = 2.0 * 2.0 * GM / (C * C) * ((a + b + rho) / (a + b - rho)).ln();
            let want = measured - (2.0 * rho + 2.0 * t + rel);
            ensure!((got - want).abs() <= 1e-6 + 1e-15 * rho.abs() * 4.0, "residual {got} instead of {want}");
            ensure!(Observation::obs_type(&o) == ObsType::SlrNormalPoint && Observation::sigma(&o).value() == 0.01 && Observation::epoch(&o) == JulianDate::new(2_460_001.5), "description");
            // A normal point carries its own geometry: the state argument changes nothing.
            let again = o.residual(&st([1.0, 2.0, 3.0], [1.0; 3]), &Clocks { rx: 5.0, sat: 1.0 }).map_err(|e| e.to_string())?;
            ensure!(again == got, "residual depends on the receiver state");
            Ok(hf(&[want]))
        });
    });
}

struct Scale;
impl Correction for Scale {
    fn name(&self) -> &str {
        "scale"
    }
    fn apply_to_range(&self, r: Meter, _: Position<GCRS>, _: Position<GCRS>) -> Meter {
        Meter::new(r.value() * 1.5)
    }
}
fn alphabet(k: usize) -> (Box<dyn Correction>, &'static str, Box<dyn Fn(f64, V3, V3) -> f64>) {
    fn los(o: V3) -> Box<dyn Fn(f64, V3, V3) -> f64> {
        Box::new(move |r, rx, sat| {
            let d = sub(sat, rx);
            let n = norm(d);
            if n == 0.0 {
                r
            } else {
                r - dot(o, d) / n
            }
        })
    }
    match k {
        0 => (Box::new(PhaseCenterOffset::new([0.0012, -0.0005, 0.002])), "PhaseCenterOffset", los([1.2, -0.5, 2.0])),
        1 => (Box::new(PhaseCenterOffset::from_metres([-0.25, 0.125, 3.0])), "PhaseCenterOffset", los([-0.25, 0.125, 3.0])),
        2 => (
            Box::new(ShapiroDelay),
            "ShapiroDelay",
            Box::new(|r, rx, sat| {
                let s = (norm(rx) + norm(sat)) * 1e3;
                if s - r > 0.0 {
                    r + 2.0 * GM / (C * C) * ((s + r) / (s - r)).ln()
                } else {
                    r
                }
            }),
        ),
        3 => (Box::new(EarthTideDisplacement::from_metres(0.1, -0.2, 0.3)), "EarthTideDisplacement", los([0.1, -0.2, 0.3])),
        4 => (Box::new(EarthTideDisplacement::from_km(2e-4, 0.0, -1e-4)), "EarthTideDisplacement", los([0.2, 0.0, -0.1])),
        5 => (Box::new(EarthTideDisplacement::zero()), "EarthTideDisplacement", Box::new(|r, _, _| r)),
        _ => (Box::new(Scale), "scale", Box::new(|r, _, _| r * 1.5)),
    }
}
fn corrections(ctx: &Ctx) {
    let geo: Vec<(V3, V3)> = vec![
        ([6378.0, 0.0, 0.0], [26560.0, 0.0, 0.0]),
        ([-4000.0, 5200.0, 1800.0], [26000.0, 3000.0, -4000.0]),
        ([7000.0, 10.0, 0.0], [7000.0, 10.0, 0.0]),
        ([0.0, 0.0, 6400.0], [1000.0, -2000.0, 7000.0]),
    ];
    let seqs = sequences(7, ctx.pick(4, 5));
    ctx.par(&seqs, |l, seq| {
        for (g, (rx, sat)) in geo.iter().enumerate() {
            l.case("corrections", &format!("{seq:?},geometry={g}"), || {
                let mut reg = CorrectionRegistry::new();
                let mut want_names = vec![];
                for &k in seq {
                    let (c, n, _) = alphabet(k);
                    reg.push(c);
                    want_names.push(n);
                }
                ensure!(reg.len() == seq.len() && reg.is_empty() == seq.is_empty() && reg.names() == want_names, "names {:?}", reg.names());
                for r0 in [norm(sub(*sat, *rx)) * 1e3, 1.9e7] {
                    let mut want = r0;
                    for &k in seq {
                        want = alphabet(k).2(want, *rx, *sat);
                    }
                    let got = reg.apply(Meter::new(r0), pos(*rx), pos(*sat)).value();
                    // Shapiro is singular where the range equals the sum of radii; 1.9e7 avoids it.
                    ensure!((got - want).abs() < 1e-6, "{got} instead of {want}");
                }
                Ok(if seq.is_empty() { 0 } else { hstr(&format!("{seq:?}{g}")) })
            });
        }
    });
}

struct Fixed(JulianDate, f64);
impl Observation for Fixed {
    type Residual = f64;
    fn residual(&self, s: &CartesianState, p: &dyn ProviderBundle) -> Result<f64, siderust::pod::observation::error::PodObservationsError> {
        Ok(self.1 + s.position.x().value() + p.receiver_clock_m().value())
    }
    fn obs_type(&self) -> ObsType {
        ObsType::Doppler
    }
    fn epoch(&self) -> JulianDate {
        self.0
    }
    fn sigma(&self) -> Meter {
        Meter::new(1.0)
    }
}
fn batches(ctx: &Ctx) {
    let epochs = [2_460_000.5, 2_460_000.5 + 30.0 / 86400.0, 2_460_001.5];
    let seqs = sequences(3, ctx.pick(6, 8));
    ctx.par(&seqs, |l, seq| {
        l.case("batch", &format!("{seq:?}"), || {
            let mut b = ObservationBatch::new();
            for (i, &k) in seq.iter().enumerate() {
                b.push(Box::new(Fixed(JulianDate::new(epochs[k]), i as f64)));
            }
            ensure!(b.len() == seq.len() && b.is_empty() == seq.is_empty(), "length");
            let e: Vec<f64> = b.epochs().iter().map(|t| t.raw().value()).collect();
            ensure!(e == seq.iter().map(|&k| epochs[k]).collect::<Vec<_>>(), "epochs {e:?}");
            for (k, &t) in epochs.iter().enumerate() {
                let s = st([7000.0, 1.0, 2.0], [0.0; 3]);
                let got: Vec<f64> = b
                    .residuals_at_epoch_with(JulianDate::new(t), &s, &Clocks { rx: 0.5, sat: 0.0 })
                    .into_iter()
                    .map(|r| match r {
                        Ok(ObsResidual::Scalar(x)) => x,
                        _ => f64::NAN,
                    })
                    .collect();
                let want: Vec<f64> = seq.iter().enumerate().filter(|(_, &x)| x == k).map(|(i, _)| i as f64 + 7000.5).collect();
                ensure!(got == want, "residuals at epoch {k}: {got:?} instead of {want:?}");
                ensure!(b.residuals_at_epoch(JulianDate::new(t)).len() == want.len(), "count without a state");
            }
            ensure!(b.residuals_at_epoch_with(JulianDate::new(2_460_000.5 + 1.0 / 86400.0), &st([7000.0, 0.0, 0.0], [0.0; 3]), &NullProviderBundle).is_empty(), "an epoch one second away matches");
            Ok(if seq.is_empty() { 0 } else { hstr(&format!("{seq:?}")) })
        });
    });
}

pub fn run(tier: Tier) -> Ctx {
    let mut ctx = Ctx::new("C30", "exploration", tier,
        "every combination of receiver, transmitter, delay model, frequency, clock table, satellite and epoch for code and phase ranges; the broadcast ionosphere over its whole argument grid; every station, satellite, elevation and wavelength of laser ranges; every sequence of range corrections to the depth bound over four geometries; every sequence of observation epochs to the depth bound. Non-trivial: a residual was formed.");
    ctx.assumptions = vec![
        "the troposphere, ionosphere and laser models are the published ones the module names, with its standard atmosphere".into(),
        "without a frequency the phase wavelength is L1's to five digits".into(),
    ];
    gnss(&ctx);
    slr(&ctx);
    corrections(&ctx);
    batches(&ctx);
    ctx
}
