//! C09: histories of kernel loads. After every load sequence up to a depth, every state, rotation and time
//! query of the pool is compared with a model that keeps the list of loaded kernels and answers from the
//! most recent one that covers the request; refused loads must leave no trace.
use crate::core::*;
use crate::spice::*;
use siderust::coordinates::centers::Barycentric;
use siderust::ephemeris::{MajorPlanet, PlanetPoint};
use siderust::formats::spice::text::TextValue;
use siderust::formats::spice::{LeapSecondKernel, SclkKernel, SpiceError, SpkKernelSet, TextKernel};
use siderust::spice::{SpiceContext, SpiceContextError};
use siderust::time::JulianDate;
use std::collections::BTreeMap;

type M3 = [[f64; 3]; 3];
const ID: M3 = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]];
fn mul(a: M3, b: M3) -> M3 {
    std::array::from_fn(|i| std::array::from_fn(|j| (0..3).map(|k| a[i][k] * b[k][j]).sum()))
}
fn tr(a: M3) -> M3 {
    std::array::from_fn(|i| std::array::from_fn(|j| a[j][i]))
}
fn rot3(a: f64) -> M3 {
    let (s, c) = a.sin_cos();
    [[c, s, 0.0], [-s, c, 0.0], [0.0, 0.0, 1.0]]
}
fn rot1(a: f64) -> M3 {
    let (s, c) = a.sin_cos();
    [[1.0, 0.0, 0.0], [0.0, c, s], [0.0, -s, c]]
}
fn dist(a: &M3, b: &M3) -> f64 {
    (0..9).map(|k| (a[k / 3][k % 3] - b[k / 3][k % 3]).abs()).fold(0.0, f64::max)
}

/// A segment of the model: target, centre, bounds, position at zero and velocity.
#[derive(Clone, Copy)]
struct Edge(i32, i32, f64, f64, [f64; 3], [f64; 3]);
impl Edge {
    fn at(&self, et: f64) -> [f64; 6] {
        std::array::from_fn(|i| if i < 3 { self.4[i] + self.5[i] * et } else { self.5[i - 3] })
    }
    fn covers(&self, et: f64) -> bool {
        et >= self.2 && et <= self.3
    }
}
#[derive(Clone)]
enum FrameDef {
    Matrix(i32, &'static str, M3, &'static str),
    Pck(i32, &'static str, i32),
    Other(i32, &'static str),
}
impl FrameDef {
    fn id(&self) -> i32 {
        match self {
            FrameDef::Matrix(i, ..) | FrameDef::Pck(i, ..) | FrameDef::Other(i, _) => *i,
        }
    }
    fn name(&self) -> &'static str {
        match self {
            FrameDef::Matrix(_, n, ..) | FrameDef::Pck(_, n, _) | FrameDef::Other(_, n) => n,
        }
    }
}
#[derive(Clone, Default)]
struct Kernel {
    name: &'static str,
    bytes: Vec<u8>,
    ok: bool,
    spk: Vec<Edge>,
    lsk: Option<(f64, Vec<(f64, f64)>)>,
    frames: Option<Vec<FrameDef>>,
    /// body, pole, prime meridian; None for a body without orientation constants
    pck: Option<Vec<(i32, Option<[f64; 6]>)>>,
    sclk: Vec<(i32, Vec<[f64; 3]>)>,
    ck: bool,
}

fn lsk_text(delta: f64, table: &[(f64, &str)]) -> String {
    format!("KPL/LSK\n\\begindata\nDELTET/DELTA_T_A = {delta}\nDELTET/DELTA_AT = ( {} )\n\\begintext\n", table.iter().map(|(d, e)| format!("{d}, {e}")).collect::<Vec<_>>().join("\n  "))
}
fn fk_text(frames: &[FrameDef]) -> String {
    let mut s = "KPL/FK\n\\begindata\n".to_string();
    for f in frames {
        let id = f.id();
        let (class, class_id) = match f {
            FrameDef::Matrix(..) => (4, id),
            FrameDef::Pck(_, _, b) => (2, *b),
            FrameDef::Other(..) => (3, id),
        };
        s += &format!("FRAME_{id}_NAME = '{}'\nFRAME_{id}_CLASS = {class}\nFRAME_{id}_CLASS_ID = {class_id}\nFRAME_{id}_CENTER = 399\n", f.name());
        if let FrameDef::Matrix(_, _, m, rel) = f {
            s += &format!("TKFRAME_{id}_SPEC = 'MATRIX'\nTKFRAME_{id}_RELATIVE = '{rel}'\nTKFRAME_{id}_MATRIX = ( {} )\n", (0..3).map(|j| format!("{} {} {}", m[0][j], m[1][j], m[2][j])).collect::<Vec<_>>().join("\n   "));
        }
    }
    s + "\\begintext\n"
}
fn pck_text(bodies: &[(i32, Option<[f64; 6]>)]) -> String {
    let mut s = "KPL/PCK\n\\begindata\n".to_string();
    for (b, o) in bodies {
        if let Some(o) = o {
            s += &format!("BODY{b}_POLE_RA = ( {} {} 0. )\nBODY{b}_POLE_DEC = ( {} {} 0. )\nBODY{b}_PM = ( {} {} 0. )\n", o[0], o[1], o[2], o[3], o[4], o[5]);
        }
        s += &format!("BODY{b}_RADII = ( 3396.19 3396.19 3376.2 )\n");
    }
    s + "\\begintext\n"
}
fn kernels() -> Vec<Kernel> {
    let spk = |name, edges: Vec<Edge>| Kernel {
        name, ok: true,
        bytes: daf("DAF/SPK", &edges.iter().map(|e| linear(e.0, e.1, 2, e.2, e.3, 2, e.4, e.5)).collect::<Vec<_>>(), PLAIN),
        spk: edges, ..Default::default()
    };
    let e = |t: i32, c: i32, a: f64, b: f64, k: f64| Edge(t, c, a, b, [k, 2.0 * k, -k], [0.01 * k, -0.5, 0.25 + k / 64.0]);
    let text = |name, s: String| Kernel { name, ok: true, bytes: s.into_bytes(), ..Default::default() };
    // 1972-JAN-1 and 1972-JUL-1 as days from J2000 noon, by civil-day counting
    let d72 = |extra: f64| (-10227.5 + extra) * 86400.0;
    let turn = [[0.0, -1.0, 0.0], [1.0, 0.0, 0.0], [0.0, 0.0, 1.0]];
    let cyc = [[0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [1.0, 0.0, 0.0]];
    let tilt = [[0.6, -0.8, 0.0], [0.8, 0.6, 0.0], [0.0, 0.0, 1.0]];
    let m1: (i32, Option<[f64; 6]>) = (499, Some([317.5, -0.5, 52.5, -0.25, 176.5, 350.5]));
    let m2 = (499, Some([10.0, 0.0, 80.0, 0.0, 20.0, 30.0]));
    let j1 = (599, Some([268.0, 0.0, 64.5, 0.0, 284.5, 870.5]));
    let mut v = vec![
        spk("spkA", vec![e(399, 0, -100.0, 200.0, 1.0), e(301, 399, -100.0, 100.0, 2.0)]),
        spk("spkB", vec![e(399, 0, 0.0, 50.0, 3.0)]),
        spk("spkC", vec![e(301, 399, 50.0, 300.0, 4.0), e(10, 0, -1000.0, 1000.0, 5.0), e(301, 399, 60.0, 70.0, 6.0)]),
    ];
    let t1 = [(10.0, d72(0.0)), (11.0, d72(182.0))];
    let mut k = text("lsk1", lsk_text(32.184, &[(10.0, "@1972-JAN-1"), (11.0, "@1972-JUL-1")]));
    k.lsk = Some((32.184, t1.iter().map(|(d, s)| (s + 32.184 + d, *d)).collect()));
    v.push(k);
    let mut k = text("lsk2", lsk_text(32.0, &[(37.0, "100.0"), (30.0, "-100.0"), (38.0, "150.0")]));
    k.lsk = Some((32.0, vec![(-100.0, 30.0), (100.0, 37.0), (150.0, 38.0)]));
    v.push(k);
    for (name, f) in [
        ("fk1", vec![FrameDef::Matrix(1001, "FA", turn, "J2000"), FrameDef::Matrix(1002, "FB", cyc, "FA")]),
        ("fk2", vec![FrameDef::Matrix(1001, "FA", tilt, "J2000"), FrameDef::Pck(1010, "IAU_M", 499)]),
        ("fk3", vec![FrameDef::Matrix(1004, "FA", cyc, "IAU_M"), FrameDef::Other(1005, "FC")]),
    ] {
        let mut k = text(name, fk_text(&f));
        k.frames = Some(f);
        v.push(k);
    }
    for (name, b) in [("pck1", vec![m1]), ("pck2", vec![m2, j1]), ("pck-radii", vec![(499, None)])] {
        let mut k = text(name, pck_text(&b));
        k.pck = Some(b);
        v.push(k);
    }
    let mut k = text("sclk", "KPL/SCLK\n\\begindata\nSCLK01_COEFFICIENTS_82 = ( 100.0 100.0 2.0\n 0.0 0.0 1.0 )\n\\begintext\n".into());
    k.sclk = vec![(82, vec![[0.0, 0.0, 1.0], [100.0, 100.0, 2.0]])];
    v.push(k);
    v.push(Kernel { name: "ck", ok: true, ck: true, bytes: daf("DAF/CK", &[ck(-82000, 1, &[(100.0, [1.0, 0.0, 0.0, 0.0]), (110.0, [0.6, 0.8, 0.0, 0.0])], 100.0, 110.0)], PLAIN), ..Default::default() });
    v.push(text("ik", "KPL/IK\n\\begindata\nINS-82001_FOV_SHAPE = 'CIRCLE'\n\\begintext\n".into()));
    let f = vec![FrameDef::Pck(1011, "IAU_J", 599), FrameDef::Matrix(1003, "FD", turn, "IAU_M")];
    let mut k = text("combined", lsk_text(31.0, &[(5.0, "0")]) + &fk_text(&f) + &pck_text(&[j1]));
    k.lsk = Some((31.0, vec![(0.0, 5.0)]));
    k.frames = Some(f);
    k.pck = Some(vec![j1]);
    v.push(k);
    let mut bad = |name, bytes: Vec<u8>| v.push(Kernel { name, bytes, ..Default::default() });
    let a = daf("DAF/SPK", &[linear(399, 0, 2, -1e4, 1e4, 2, [9.0; 3], [9.0; 3]), linear(10, 0, 2, -1e4, 1e4, 2, [9.0; 3], [9.0; 3])], PLAIN);
    bad("bad-spk", a[..a.len() - 1024].to_vec());
    bad("bad-text", format!("{}\\begindata\nBODY499_POLE_RA = ( 1 2\n", lsk_text(1.0, &[(1.0, "0")])).into_bytes());
    let mut b = a.clone();
    b[..8].copy_from_slice(b"DAF/PCK ");
    bad("bad-pck", b);
    bad("bad-combined", (lsk_text(77.0, &[(77.0, "-1D9")]) + &pck_text(&[(499, Some([0.0; 6])), (599, Some([0.0; 6]))]) + "\\begindata\nFRAME_1001_NAME = 'FA'\nFRAME_1001_CLASS = 4\n").into_bytes());
    v
}

/// What the pool may answer: a value, or an error of a class.
#[derive(Debug, PartialEq)]
enum Want<T> {
    Value(T),
    NoChain,
    OutOfCoverage,
    Absent,
}
struct Pool<'a> {
    loaded: Vec<&'a Kernel>,
}
impl Pool<'_> {
    fn state(&self, t: i32, c: i32, et: f64) -> Want<[f64; 6]> {
        if t == c && !self.loaded.iter().any(|k| !k.spk.is_empty()) {
            return Want::NoChain; // not judged
        }
        let mut miss = false;
        for k in self.loaded.iter().rev().filter(|k| !k.spk.is_empty()) {
            // all kernels here are forests: positions relative to each root, latest covering segment first
            let climb = |mut b: i32, covered: bool| -> Option<(Vec<(i32, [f64; 6])>, i32)> {
                let mut path = vec![(b, [0.0; 6])];
                let mut acc = [0.0; 6];
                loop {
                    let any = k.spk.iter().any(|e| e.0 == b);
                    match k.spk.iter().rev().find(|e| e.0 == b && (!covered || e.covers(et))) {
                        Some(e) => {
                            let x = e.at(et);
                            for i in 0..6 {
                                acc[i] += x[i];
                            }
                            b = e.1;
                            path.push((b, acc));
                        }
                        None if any => return Some((path, b)),
                        None => return Some((path, b)),
                    }
                }
            };
            let meet = |covered: bool| -> Option<[f64; 6]> {
                let (p, _) = climb(t, covered)?;
                let (q, _) = climb(c, covered)?;
                for (n, x) in &p {
                    if let Some((_, y)) = q.iter().find(|(m, _)| m == n) {
                        return Some(std::array::from_fn(|i| x[i] - y[i]));
                    }
                }
                None
            };
            if let Some(x) = meet(true) {
                return Want::Value(x);
            }
            miss |= meet(false).is_some();
        }
        if miss { Want::OutOfCoverage } else { Want::NoChain }
    }
    fn frames(&self) -> Vec<&FrameDef> {
        self.loaded.iter().filter_map(|k| k.frames.as_ref()).flatten().collect()
    }
    fn to_j2000(&self, id: i32, et: f64, seen: &mut Vec<i32>) -> Option<M3> {
        if id == 1 {
            return Some(ID);
        }
        if seen.contains(&id) {
            return None;
        }
        seen.push(id);
        match *self.frames().iter().rev().find(|f| f.id() == id)? {
            FrameDef::Matrix(_, _, m, rel) => {
                let rid = if *rel == "J2000" { 1 } else { self.frames().iter().rev().find(|f| f.name() == *rel)?.id() };
                Some(mul(self.to_j2000(rid, et, seen)?, *m))
            }
            FrameDef::Pck(_, _, b) => {
                let o = self.loaded.iter().rev().filter_map(|k| k.pck.as_ref()).find_map(|p| p.iter().find(|x| x.0 == *b).and_then(|x| x.1))?;
                let (t, d) = (et / 86400.0 / 36525.0, et / 86400.0);
                let (ra, dec, w) = ((o[0] + o[1] * t).to_radians(), (o[2] + o[3] * t).to_radians(), (o[4] + o[5] * d).to_radians());
                let q = std::f64::consts::FRAC_PI_2;
                Some(tr(mul(rot3(w), mul(rot1(q - dec), rot3(q + ra)))))
            }
            FrameDef::Other(..) => None,
        }
    }
    fn rotation(&self, a: i32, b: i32, et: f64) -> Want<M3> {
        if a == b {
            return Want::Value(ID);
        }
        match (self.to_j2000(a, et, &mut vec![]), self.to_j2000(b, et, &mut vec![])) {
            (Some(x), Some(y)) => Want::Value(mul(tr(y), x)),
            _ => Want::Absent,
        }
    }
    fn leap(&self, et: f64) -> Want<f64> {
        match self.loaded.iter().rev().find_map(|k| k.lsk.as_ref()) {
            Some((_, t)) => Want::Value(t.iter().rev().find(|(e, _)| *e <= et).map_or(0.0, |x| x.1)),
            None => Want::Absent,
        }
    }
}

const BODIES: [i32; 5] = [0, 399, 301, 10, 777];
const FRAMES: [i32; 9] = [1, 1001, 1002, 1003, 1004, 1005, 1010, 1011, 9999];
fn histories(ctx: &Ctx, tier: Tier) {
    let ks = kernels();
    let depth = if tier == Tier::Thorough { 5 } else { 4 };
    let heads = product(&[ks.len(), ks.len()]);
    let tails = sequences(ks.len(), depth - 2);
    let mut l = Local::default();
    for k in &ks {
        l.case("single", k.name, || {
            let mut c = SpiceContext::new();
            let r = c.load_bytes(k.name, k.bytes.clone());
            ensure!(r.is_ok() == k.ok, "a {} kernel: {r:?}", if k.ok { "valid" } else { "damaged" });
            Ok(1 + k.ok as u64)
        });
    }
    ctx.merge(l);
    ctx.par(&heads, |l, h| {
        for t in &tails {
            let seq: Vec<&Kernel> = h.iter().chain(t).map(|&i| &ks[i]).collect();
            let names: Vec<&str> = seq.iter().map(|k| k.name).collect();
            l.traces += 1;
            l.transitions += seq.len() as u64;
            l.states += 1;
            l.case("history", &names.join("+"), || {
                let mut c = SpiceContext::new();
                for k in &seq {
                    let r = c.load_bytes(k.name, k.bytes.clone());
                    ensure!(r.is_ok() == k.ok, "loading {}: {r:?}", k.name);
                }
                let p = Pool { loaded: seq.iter().copied().filter(|k| k.ok).collect() };
                let mut hash = 1u64;
                for et in [-100.5, -100.0, -1.0, 0.0, 50.0, 65.0, 100.0, 150.0, 299.5, 301.0] {
                    for a in BODIES {
                        for b in BODIES {
                            if a == b {
                                continue;
                            }
                            let r = c.state_naif(a, b, et);
                            match p.state(a, b, et) {
                                Want::Value(w) => {
                                    let g = r.as_ref().map_err(|e| format!("state {a} from {b} at {et}: {e}"))?;
                                    for i in 0..6 {
                                        ensure!(close(g[i], w[i], 1e-9), "state {a} from {b} at {et} is {g:?}, the latest covering kernel gives {w:?}");
                                    }
                                    hash = hash.wrapping_mul(31) ^ hf(&w);
                                }
                                Want::OutOfCoverage => ensure!(matches!(r, Err(SpiceContextError::Kernel(SpiceError::OutOfCoverage { .. }))), "state {a} from {b} at {et}: missing coverage is answered {r:?}"),
                                _ => ensure!(matches!(r, Err(SpiceContextError::Kernel(SpiceError::NoChain { .. }))), "state {a} from {b} at {et}: a missing chain is answered {r:?}"),
                            }
                        }
                    }
                }
                for et in [0.0, 8.64e7] {
                    for a in FRAMES {
                        for b in if et == 0.0 { &FRAMES[..] } else { &FRAMES[..1] } {
                            let r = c.rotation_naif(a, *b, et);
                            match p.rotation(a, *b, et) {
                                Want::Value(w) => {
                                    let g = r.map_err(|e| format!("rotation {a} to {b}: {e}"))?;
                                    ensure!(dist(&g, &w) < 1e-9, "rotation {a} to {b} at {et} is {g:?}, the latest definitions give {w:?}");
                                    hash = hash.wrapping_mul(31) ^ hf(&w.concat());
                                }
                                _ => ensure!(r.is_err(), "rotation {a} to {b} without definition is answered {r:?}"),
                            }
                        }
                    }
                }
                for et in [-8.9e8, -8.836e8 + 41.0, -8.836e8 + 43.0, -8.7e8, -100.5, -100.0, 0.0, 99.0, 100.0, 149.9, 150.0, 1e9] {
                    let r = c.tai_minus_utc(et);
                    let r2 = c.tdb_minus_utc(et);
                    match p.leap(et) {
                        Want::Value(w) => {
                            let d = p.loaded.iter().rev().find_map(|k| k.lsk.as_ref()).unwrap().0;
                            let (g, g2) = (r.map_err(|e| e.to_string())?, r2.map_err(|e| e.to_string())?);
                            ensure!(g == w && close(g2, w + d, 1e-12), "leap seconds at {et}: {g} and {g2}, the latest kernel says {w} and {}", w + d);
                            hash = hash.wrapping_mul(31) ^ hf(&[w]);
                        }
                        _ => ensure!(matches!(r, Err(SpiceContextError::KernelNotLoaded { .. })) && r2.is_err(), "without leap seconds: {r:?}"),
                    }
                }
                let s = c.kernel_set();
                let n = |f: &dyn Fn(&&&Kernel) -> bool| p.loaded.iter().filter(f).count();
                ensure!(s.spk_count() == n(&|k| !k.spk.is_empty()) && s.ck_count() == n(&|k| k.ck) && s.has_lsk() == (n(&|k| k.lsk.is_some()) > 0), "kernel counts {} {} {}", s.spk_count(), s.ck_count(), s.has_lsk());
                ensure!(s.fk_kernels().count() == n(&|k| k.frames.is_some()) && s.pck_text_kernels().count() == n(&|k| k.pck.is_some()) && s.sclk_kernels().count() == n(&|k| !k.sclk.is_empty()), "kernel counts of text kernels");
                for k in s.sclk_kernels() {
                    for (et, w) in [(0.0, 0.0), (50.0, 50.0), (100.0, 100.0), (150.0, 200.0)] {
                        ensure!(k.et_to_sclkdp(et).ok() == Some(w) && k.sclkdp_to_et(w).ok() == Some(et), "spacecraft clock at {et}");
                    }
                }
                Ok(hash | 1)
            });
        }
    });
    // the typed interface gives the same numbers
    let mut l = Local::default();
    l.case("typed", "spkA", || {
        let mut c = SpiceContext::new();
        c.load_bytes("a", ks[0].bytes.clone()).map_err(|e| e.to_string())?;
        for d in [-0.001, 0.0, 0.0005, 0.002] {
            let t = tempoch::JulianDate::<tempoch::TDB>::new(2_451_545.0 + d).to_j2000s();
            let s: f64 = t.raw().value();
            let (q, v) = c.state_typed::<Barycentric>(399, 0, t.into()).map_err(|e| e.to_string())?;
            let w = c.state_naif(399, 0, s).map_err(|e| e.to_string())?;
            for (g, w) in [(q.x().value(), w[0]), (q.y().value(), w[1]), (q.z().value(), w[2]), (v.x().value(), w[3]), (v.y().value(), w[4]), (v.z().value(), w[5])] {
                ensure!(close(g, w, 1e-9), "typed state differs: {g} and {w}");
            }
        }
        Ok(1)
    });
    ctx.merge(l);
}

/// The kernel set: chains across kernels, the most recent segment first.
fn sets(ctx: &Ctx, tier: Tier) {
    const RATIO: f64 = 81.300_569_074_190_62;
    let e = |t: i32, c: i32, a: f64, b: f64, k: f64| Edge(t, c, a, b, [1e4 * k, 2e4 * k, -1e4 * k], [0.001 * k, -0.0005, 0.00025 + k / 6400.0]);
    let ks: Vec<Vec<Edge>> = vec![
        vec![e(399, 3, -100.0, 200.0, 1.0), e(3, 0, -1000.0, 1000.0, 2.0), e(301, 3, -100.0, 400.0, 3.0)],
        vec![e(399, 0, 0.0, 50.0, 4.0)],
        vec![e(4, 0, -1000.0, 120.0, 5.0), e(10, 0, -1000.0, 1000.0, 6.0)],
        vec![e(4, 10, 0.0, 300.0, 7.0)],
        vec![e(301, 399, 50.0, 300.0, 8.0)],
        vec![e(3, 0, -50.0, 60.0, 9.0), e(3, 0, -10.0, 10.0, 10.0)],
        vec![e(3, 399, -30.0, 30.0, 11.0)],
        vec![e(499, 4, -1000.0, 1000.0, 12.0)],
    ];
    let files: Vec<Vec<u8>> = ks.iter().enumerate().map(|(i, v)| daf("DAF/SPK", &v.iter().map(|e| linear(e.0, e.1, if i % 2 == 0 { 2 } else { 3 }, e.2, e.3, 2, e.4, e.5)).collect::<Vec<_>>(), if i % 3 == 0 { PLAIN } else { Layout { little: false, per_record: 1, ..PLAIN } })).collect();
    let bad = files[0][..files[0].len() - 1024].to_vec();
    let depth = if tier == Tier::Thorough { 5 } else { 4 };
    let heads = (0..ks.len() + 1).collect::<Vec<_>>();
    let tails = sequences(ks.len() + 1, depth - 1);
    fn resolve(segs: &[Edge], t: i32, et: f64, seen: &mut Vec<i32>) -> Option<[f64; 3]> {
        if t == 0 {
            return Some([0.0; 3]);
        }
        if seen.contains(&t) {
            return None;
        }
        seen.push(t);
        let mut out = None;
        for s in segs.iter().rev().filter(|s| s.0 == t && s.covers(et)) {
            if let Some(c) = resolve(segs, s.1, et, seen) {
                let x = s.at(et);
                out = Some(std::array::from_fn(|i| c[i] + x[i]));
                break;
            }
        }
        if out.is_none() && t == 399 {
            if let (Some(b), Some(m)) = (resolve(segs, 3, et, seen), segs.iter().rev().find(|s| s.0 == 301 && s.1 == 3 && s.covers(et))) {
                let x = m.at(et);
                out = Some(std::array::from_fn(|i| b[i] - x[i] / RATIO));
            }
        }
        seen.pop();
        out
    }
    ctx.par(&heads, |l, &h| {
        for t in &tails {
            let seq: Vec<usize> = std::iter::once(h).chain(t.iter().copied()).collect();
            l.traces += 1;
            l.transitions += seq.len() as u64;
            l.states += 1;
            l.case("set-history", &format!("{seq:?}"), || {
                let mut set = SpkKernelSet::default();
                let mut segs: Vec<Edge> = vec![];
                for &k in &seq {
                    if k == ks.len() {
                        ensure!(set.push_bytes(&bad).is_err(), "a damaged kernel is accepted");
                    } else {
                        set.push_bytes(&files[k]).map_err(|e| e.to_string())?;
                        segs.extend(&ks[k]);
                    }
                }
                ensure!(set.segment_count() == segs.len(), "{} segments instead of {}", set.segment_count(), segs.len());
                let mut hash = 1u64;
                for et0 in [-500.0, -75.0, -20.0, 5.0, 40.0, 90.0, 160.0, 250.0, 350.0] {
                    let j = jd_of_et(et0);
                    let et = et_of_jd(j);
                    let jd = JulianDate::new(j);
                    let at = |b: i32| resolve(&segs, b, et, &mut vec![]);
                    for (a, b) in [(399, 0), (3, 0), (301, 399), (4, 0), (10, 399), (4, 399), (499, 399), (301, 0), (777, 0), (399, 399)] {
                        let r = set.try_geometric_state(a, b, jd);
                        let r = r.map(|p| [p.x().value(), p.y().value(), p.z().value()]);
                        match (at(a), at(b)) {
                            (Some(x), Some(y)) => {
                                let g = r.map_err(|e| format!("{a} from {b} at {et0}: {e}"))?;
                                for i in 0..3 {
                                    ensure!(close(g[i], x[i] - y[i], 1e-5), "{a} from {b} at {et0} is {g:?}, the latest covering segments give {:?} minus {:?}", x, y);
                                }
                                hash = hash.wrapping_mul(31) ^ hf(&x);
                            }
                            _ => ensure!(r.is_err(), "{a} from {b} at {et0} without coverage is answered {r:?}"),
                        }
                    }
                    for (pt, id) in [(PlanetPoint::SystemBarycenter, 4), (PlanetPoint::Center, 499)] {
                        let r = set.try_major_planet_geocentric(MajorPlanet::Mars, pt, jd).map(|p| [p.x().value(), p.y().value(), p.z().value()]);
                        match (at(id), at(399)) {
                            (Some(x), Some(y)) => {
                                let g = r.map_err(|e| format!("Mars ({pt:?}) at {et0}: {e}"))?;
                                for i in 0..3 {
                                    ensure!(close(g[i], x[i] - y[i], 1e-5), "geocentric Mars ({pt:?}) at {et0} is {g:?}, the latest covering segments give {:?} minus {:?}", x, y);
                                }
                            }
                            _ => ensure!(r.is_err(), "geocentric Mars ({pt:?}) at {et0} without coverage is answered {r:?}"),
                        }
                    }
                }
                Ok(hash | 1)
            });
        }
    });
}

/// Text kernels: every sequence of assignments against a map.
fn assignments(ctx: &Ctx, tier: Tier) {
    use TextValue as V;
    let vals: Vec<(&str, V)> = vec![
        ("1", V::Integer(1)),
        ("-2.5D1", V::Float(-25.0)),
        ("'it is'", V::Text("it is".into())),
        ("( 3, 4.5E0 )", V::Array(vec![V::Integer(3), V::Float(4.5)])),
        ("( 'a'\n   'b = (' )", V::Array(vec![V::Text("a".into()), V::Text("b = (".into())])),
        ("( 7 )", V::Array(vec![V::Integer(7)])),
    ];
    let mut st = vec![];
    for k in ["KEY", "Other/key"] {
        for op in ["=", "+="] {
            for v in 0..vals.len() {
                st.push((k, op, v));
            }
        }
    }
    let seqs = sequences(st.len(), if tier == Tier::Thorough { 4 } else { 3 });
    let chunks: Vec<&[Vec<usize>]> = seqs.chunks(512).collect();
    ctx.par(&chunks, |l, c| {
        for s in *c {
            l.case("assignment", &format!("{s:?}"), || {
                let mut want: BTreeMap<String, V> = BTreeMap::new();
                for &i in s {
                    let (k, op, v) = st[i];
                    let v = vals[v].1.clone();
                    let list = |v: V| if let V::Array(a) = v { a } else { vec![v] };
                    let key = k.to_ascii_uppercase();
                    let new = if op == "=" {
                        v
                    } else {
                        let mut a = want.remove(&key).map_or(vec![], list);
                        a.extend(list(v));
                        V::Array(a)
                    };
                    want.insert(key, new);
                }
                for style in 0..3 {
                    let mut src = String::from("KPL/TEST\nIGNORED = 1\n\\begindata\n");
                    for (n, &i) in s.iter().enumerate() {
                        let (k, op, v) = st[i];
                        match style {
                            0 => src += &format!("{k} {op} {}\n", vals[v].0),
                            1 => src += &format!("  {k}{op}{}\r\n\n", vals[v].0),
                            _ => {
                                src += &format!("\t{k}   {op}   {} \n", vals[v].0);
                                if n + 1 < s.len() {
                                    src += "\\begintext\nKEY = 99\nprose ( with 'open\n\\begindata\n";
                                }
                            }
                        }
                    }
                    src += if style == 1 { "" } else { "\\begintext\nKEY = 98\n" };
                    let k = TextKernel::parse(&src).map_err(|e| format!("{src:?}: {e}"))?;
                    let got: BTreeMap<String, V> = k.data.clone().into_iter().collect();
                    ensure!(got == want, "{src:?} is read as {got:?}, the assignments give {want:?}");
                    for (key, v) in &want {
                        let num = |v: &V| match v {
                            V::Integer(i) => Some(*i as f64),
                            V::Float(f) => Some(*f),
                            _ => None,
                        };
                        let all: Option<Vec<f64>> = match v {
                            V::Array(a) => a.iter().map(num).collect(),
                            o => num(o).map(|x| vec![x]),
                        };
                        ensure!(k.get_f64_array(&key.to_ascii_lowercase()) == all, "numbers of {key}: {:?} instead of {all:?}", k.get_f64_array(key));
                        let ints: Option<Vec<i64>> = match v {
                            V::Array(a) => a.iter().map(|x| if let V::Integer(i) = x { Some(*i) } else { None }).collect(),
                            V::Integer(i) => Some(vec![*i]),
                            _ => None,
                        };
                        ensure!(k.get_i64_array(key) == ints, "integers of {key}: {:?} instead of {ints:?}", k.get_i64_array(key));
                    }
                }
                Ok(if s.is_empty() { 0 } else { hstr(&format!("{want:?}")) })
            });
        }
    });
}

/// Clocks and leap seconds: conversions invert each other and step where the tables say.
fn clocks(ctx: &Ctx, tier: Tier) {
    let ets = [-50.0, 0.0, 10.0, 25.0];
    let rates = [0.5, 1.0, 1.25, 256.0];
    let n = if tier == Tier::Thorough { 4 } else { 3 };
    let items = product(&vec![4; n]);
    ctx.par(&items, |l, p| {
        // partitions with continuous ticks, in every storage order
        for order in permutations(n) {
            l.case("sclk", &format!("{p:?}-{order:?}"), || {
                let mut recs = vec![];
                let mut tick = 1000.0;
                for i in 0..n {
                    if i > 0 {
                        tick += (ets[i] - ets[i - 1]) * rates[p[i - 1]];
                    }
                    recs.push([tick, ets[i], rates[p[i]]]);
                }
                let body: String = order.iter().map(|&i| format!("{} {} {}\n", recs[i][0], recs[i][1], recs[i][2])).collect();
                let v = SclkKernel::from_text(&format!("\\begindata\nSCLK01_COEFFICIENTS_5 = ( {body} )\n")).map_err(|e| e.to_string())?;
                ensure!(v.len() == 1 && v[0].sc_id == -5, "clock not found");
                for et in linspace(-50.0, 60.0, 45) {
                    let i = (0..n).rev().find(|&i| recs[i][1] <= et).unwrap();
                    let want = recs[i][0] + (et - recs[i][1]) * recs[i][2];
                    let g = v[0].et_to_sclkdp(et).map_err(|e| e.to_string())?;
                    let back = v[0].sclkdp_to_et(g).map_err(|e| e.to_string())?;
                    ensure!(close(g, want, 1e-9) && close(back, et, 1e-9), "clock at {et}: {g} (expected {want}), back {back}");
                }
                ensure!(v[0].et_to_sclkdp(-50.1).is_err() && v[0].sclkdp_to_et(999.9).is_err(), "an epoch before the clock starts is answered");
                Ok(hf(&recs.concat()))
            });
        }
    });
    // every calendar day of four years and of boundary years as a leap-second epoch
    let months = ["JAN", "FEB", "MAR", "APR", "MAY", "JUN", "JUL", "AUG", "SEP", "OCT", "NOV", "DEC"];
    let years: Vec<i32> = vec![1899, 1900, 1901, 1961, 1972, 1999, 2000, 2001, 2016, 2017, 2099, 2100, 2101];
    ctx.par(&years, |l, &y| {
        let leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
        let mut day0 = 0i64; // days from 2000-01-01
        for yy in 2000.min(y)..2000.max(y) {
            let n = if yy % 4 == 0 && (yy % 100 != 0 || yy % 400 == 0) { 366 } else { 365 };
            day0 += if y >= 2000 { n } else { -n };
        }
        for (m, name) in months.iter().enumerate() {
            let len = [31, if leap { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m];
            for d in 1..=len {
                l.case("leap-epoch", &format!("{y}-{name}-{d}"), || {
                    let k = LeapSecondKernel::from_text(&lsk_text(32.184, &[(17.0, &format!("@{y}-{name}-{d}"))])).map_err(|e| e.to_string())?;
                    let et = ((day0 + d as i64 - 1) as f64 - 0.5) * 86400.0 + 32.184 + 17.0;
                    ensure!(k.tai_minus_utc_at(et - 1e-3) == 0.0 && k.tai_minus_utc_at(et + 1e-3) == 17.0, "the step at {y}-{name}-{d} (et {et}) is placed elsewhere: {:?}", k.leap_table);
                    Ok(hf(&[et]))
                });
            }
            day0 += len as i64;
        }
    });
}

pub fn run(tier: Tier) -> Ctx {
    let mut ctx = Ctx::new("C09", "model_checking", tier,
        "every sequence of up to the stated number of loads over 18 kernels (overlapping states, two leap-second tables, redefined and chained frames, two body orientations and a radii-only one, a clock, an attitude, an instrument, a combined text kernel and four damaged ones), followed by every state query over 20 body pairs and 10 epochs, every rotation over 81 frame pairs and every leap-second query at 12 epochs; every sequence of pushes of nine files into a kernel set with 12 queries at 9 epochs; every sequence of text assignments up to depth three or four in three layouts; clock partitions and calendar days. The model is a list of loaded kernels; each history is replayed on the real pool. Non-trivial: every history that loads something.");
    ctx.assumptions = vec!["chains of the pool are formed within one kernel, those of the kernel set across kernels, as documented".into(), "body orientation uses the documented linear terms".into()];
    ctx.note("load_depth", if tier == Tier::Thorough { 5 } else { 4 });
    histories(&ctx, tier);
    sets(&ctx, tier);
    assignments(&ctx, tier);
    clocks(&ctx, tier);
    ctx
}
