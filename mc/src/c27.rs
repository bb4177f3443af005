//! C27: manoeuvre bookkeeping. Explicit-state exploration of the burn log over every sequence of
//! valid and invalid burns, against a boring reference model; thrust interval semantics on a grid.
use crate::core::*;
use siderust::pod::force::thrust::{mass_flow_rate, thrust_acceleration, ThrustArc};
use siderust::pod::force::LowThrustLog;
use qtty::{force::Newtons, Kilogram, Second};
use siderust::time::{Time, UTC};

const G0: f64 = 9.80665;

fn utc(mjd: f64) -> Time<UTC> {
    siderust::time::ModifiedJulianDate::try_new(qtty::Day::new(mjd)).unwrap().to_scale::<UTC>().into()
}
#[derive(Clone, Debug)]
struct Burn {
    thrust: f64,
    isp: f64,
    start: f64,
    dur_s: f64,
}
fn arc(b: &Burn) -> ThrustArc {
    // Public fields: built directly so that invalid burns can reach the log as well.
    let start = utc(b.start);
    ThrustArc { start, stop: start + Second::new(b.dur_s), thrust: Newtons::new(b.thrust), isp: Second::new(b.isp), direction: [1.0, 0.0, 0.0] }
}
/// Reference model: (mass, dv, propellant, records).
#[derive(Clone)]
struct Model {
    m: f64,
    dv: f64,
    prop: f64,
    recs: Vec<(f64, f64, f64, f64)>,
}
impl Model {
    fn step(&mut self, b: &Burn) -> bool {
        if !(b.dur_s > 0.0) || !b.isp.is_finite() || !(b.isp > 0.0) {
            return false;
        }
        let used = b.thrust / (b.isp * G0) * b.dur_s;
        let after = self.m - used;
        if !(after > 0.0) {
            return false;
        }
        let dv = b.isp * G0 * (self.m / after).ln();
        self.recs.push((self.m, used, dv, b.dur_s));
        self.m = after;
        self.dv += dv;
        self.prop += used;
        true
    }
}
fn cl(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-9 * (1.0 + a.abs().max(b.abs()))
}

pub fn run(tier: Tier) -> Ctx {
    let mut ctx = Ctx::new("C27", "model_checking", tier,
        "every sequence of burns up to the depth bound over the burn alphabet (valid, zero/negative duration, zero/negative/NaN specific impulse, propellant exceeding the mass, exactly exhausting, very long) from each initial mass; every epoch offset on and around each arc edge. Non-trivial: at least one burn accepted or thrust active.");
    ctx.assumptions = vec!["burn durations are measured through the library's own UTC time type; arcs lie inside its supported range".into()];
    let alphabet = vec![
        Burn { thrust: 0.25, isp: 3000.0, start: 60000.0, dur_s: 86400.0 },
        Burn { thrust: 400.0, isp: 320.0, start: 60001.5, dur_s: 100.0 },
        Burn { thrust: 1.0, isp: 1500.0, start: 60002.0, dur_s: 0.0 },
        Burn { thrust: 1.0, isp: 1500.0, start: 60002.0, dur_s: -10.0 },
        Burn { thrust: 1.0, isp: 0.0, start: 60002.0, dur_s: 60.0 },
        Burn { thrust: 1.0, isp: -200.0, start: 60002.0, dur_s: 60.0 },
        Burn { thrust: 1.0, isp: f64::NAN, start: 60002.0, dur_s: 60.0 },
        Burn { thrust: 1.0e6, isp: 300.0, start: 60003.0, dur_s: 3600.0 },
        Burn { thrust: 20.0, isp: 220.0, start: 60000.25, dur_s: 7.5 },
        Burn { thrust: 0.0, isp: 300.0, start: 60003.0, dur_s: 60.0 },
        Burn { thrust: 2000.0, isp: 310.0, start: 60004.0, dur_s: 1000.0 },
    ];
    let depth = ctx.pick(4, 5);
    let seqs = sequences(alphabet.len(), depth);
    ctx.note("depth", depth as u64);
    ctx.note("alphabet", alphabet.len() as u64);
    let masses = [500.0, 1000.0, 0.5];
    ctx.par(&seqs, |l, s| {
        for m0 in masses {
            l.traces += 1;
            l.transitions += s.len() as u64;
            l.states += 1;
            let key = format!("m={m0} {s:?}");
            l.case("burns", &key, || {
                let mut log = LowThrustLog::try_new(Kilogram::new(m0)).map_err(|e| e.to_string())?;
                let mut md = Model { m: m0, dv: 0.0, prop: 0.0, recs: vec![] };
                for &a in s {
                    let b = &alphabet[a];
                    let before = (log.current_mass().value(), log.total_delta_v().value(), log.total_propellant().value(), log.records().len());
                    let r = log.append(&arc(b)).map(|r| r.clone());
                    let ok = md.step(b);
                    ensure!(r.is_ok() == ok, "burn {b:?}: accepted={} expected={ok}", r.is_ok());
                    match r {
                        Ok(rec) => {
                            let e = md.recs.last().unwrap();
                            ensure!(cl(rec.wet_mass_before.value(), e.0) && cl(rec.propellant_used.value(), e.1) && cl(rec.delta_v.value(), e.2) && (rec.duration.value() - e.3).abs() < 1e-6 * (1.0 + e.3),
                                "record {rec:?} expected {e:?}");
                            ensure!(log.records().last() == Some(&rec), "returned record is not the last record");
                        }
                        Err(_) => {
                            let after = (log.current_mass().value(), log.total_delta_v().value(), log.total_propellant().value(), log.records().len());
                            ensure!(before == after, "refused burn changed the log: {before:?} -> {after:?}");
                        }
                    }
                    ensure!(cl(log.current_mass().value(), md.m) && cl(log.total_delta_v().value(), md.dv) && cl(log.total_propellant().value(), md.prop) && log.records().len() == md.recs.len(),
                        "totals mass {} dv {} prop {} n {} expected {} {} {} {}", log.current_mass().value(), log.total_delta_v().value(), log.total_propellant().value(), log.records().len(), md.m, md.dv, md.prop, md.recs.len());
                    // model-independent invariants
                    ensure!(log.current_mass().value() > 0.0, "non-positive mass");
                    let sp: f64 = log.records().iter().map(|r| r.propellant_used.value()).sum();
                    ensure!(cl(m0 - sp, log.current_mass().value()), "mass not conserved");
                    let mut prev = m0;
                    for (i, r) in log.records().iter().enumerate() {
                        ensure!(cl(r.wet_mass_before.value(), prev), "record {i} wet mass {} expected {prev}", r.wet_mass_before.value());
                        prev -= r.propellant_used.value();
                    }
                }
                Ok(if md.recs.is_empty() { 0 } else { hf(&[md.m, md.dv]) })
            });
        }
    });
    // Rejected initial masses.
    let mut l = Local::default();
    for m in [0.0, -1.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY] {
        l.case("initial-mass", &format!("{m}"), || {
            ensure!(LowThrustLog::try_new(Kilogram::new(m)).is_err(), "accepted initial mass {m}");
            Ok(1)
        });
    }
    // Equal exhaust speed: total dv telescopes to the rocket equation, for every split of a burn.
    for parts in 1..=ctx.pick(40, 200) {
        l.case("telescoping", &format!("{parts}"), || {
            let mut log = LowThrustLog::new(Kilogram::new(1000.0));
            for i in 0..parts {
                let d = 4000.0 / parts as f64;
                log.append(&arc(&Burn { thrust: 300.0, isp: 315.0, start: 60000.0 + (i as f64 * d) / 86400.0, dur_s: d })).map_err(|e| e.to_string())?;
            }
            let exp = 315.0 * G0 * (1000.0 / log.current_mass().value()).ln();
            ensure!((log.total_delta_v().value() - exp).abs() < 1e-6, "dv {} expected {exp}", log.total_delta_v().value());
            let used = 300.0 / (315.0 * G0) * 4000.0;
            ensure!((log.total_propellant().value() - used).abs() < 1e-6, "propellant {}", log.total_propellant().value());
            Ok(1 + parts as u64)
        });
    }
    // Construction and half-open activity.
    let dirs: Vec<[f64; 3]> = vec![[1.0, 0.0, 0.0], [0.0, -3.0, 0.0], [1.0, 2.0, -2.0], [1e-8, 0.0, 0.0], [1e5, 1e5, 1e5], [0.0, 0.0, 0.0], [f64::NAN, 0.0, 1.0], [f64::INFINITY, 0.0, 0.0], [0.0, 0.0, -0.5]];
    for (di, d) in dirs.iter().enumerate() {
        for isp in [300.0, 0.0, -5.0, f64::NAN, f64::INFINITY] {
            for dur in [-1.0, 0.0, 1.0, 600.0] {
                for thrust in [0.0, 0.1, 440.0] {
                    l.case("arc", &format!("dir={di} isp={isp} dur={dur} f={thrust}"), || {
                        let start = utc(60010.5);
                        let stop = start + Second::new(dur);
                        let r = ThrustArc::with_normalised_direction(start, stop, Newtons::new(thrust), Second::new(isp), *d);
                        let mag = (d[0] * d[0] + d[1] * d[1] + d[2] * d[2]).sqrt();
                        let ok = isp.is_finite() && isp > 0.0 && dur > 0.0 && mag.is_finite() && mag > 0.0;
                        ensure!(r.is_ok() == ok, "accepted={} expected={ok}", r.is_ok());
                        let Ok(a) = r else { return Ok(2) };
                        for k in 0..3 {
                            ensure!((a.direction[k] - d[k] / mag).abs() < 1e-12, "direction {:?}", a.direction);
                        }
                        for m in [1.0, 250.0] {
                            for (off, act) in [(-1.0, false), (-0.001, false), (0.0, true), (dur * 0.5, true), (dur - 0.001, true), (dur, false), (dur + 0.001, false), (dur + 100.0, false)] {
                                let t = start + Second::new(off);
                                ensure!(a.is_active(t) == act, "active({off})={} expected {act}", a.is_active(t));
                                let acc = thrust_acceleration(&a, Kilogram::new(m), t).map_err(|e| e.to_string())?;
                                for k in 0..3 {
                                    let e = if act { thrust / m * d[k] / mag } else { 0.0 };
                                    ensure!((acc[k] - e).abs() <= 1e-12 * (1.0 + e.abs()), "acc {acc:?} expected component {k} {e}");
                                }
                            }
                        }
                        for m in [0.0, -3.0, f64::NAN, f64::INFINITY] {
                            for off in [-5.0, dur * 0.5] {
                                ensure!(thrust_acceleration(&a, Kilogram::new(m), start + Second::new(off)).is_err(), "mass {m} accepted");
                            }
                        }
                        let mf = mass_flow_rate(Newtons::new(thrust), Second::new(isp)).map_err(|e| e.to_string())?;
                        ensure!((mf - thrust / (isp * G0)).abs() < 1e-15, "mass flow {mf}");
                        Ok(hf(&[mf, mag]))
                    });
                }
            }
        }
    }
    ctx.merge(l);
    ctx
}
