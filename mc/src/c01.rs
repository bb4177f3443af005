//! C01: generic altitude event searches on synthetic altitude signals and on every built-in target
//! that uses the generic path (stars, directions, planets).
use crate::core::*;
use crate::ev::*;
use siderust::qtty::{Degrees, Radians};
use siderust::coordinates::centers::Geodetic;
use siderust::coordinates::frames::ECEF;
use siderust::event::altitude::*;
use siderust::qtty::{Days, Meters};
use std::f64::consts::TAU;

#[derive(Clone, Copy, Debug)]
pub struct Syn {
    pub off: f64,
    pub amp: f64,
    pub per: f64,
    pub ph: f64,
    pub amp2: f64,
    pub hint: Option<f64>,
}
impl Syn {
    pub fn h(&self, t: f64) -> f64 {
        let x = TAU * ((t - 60000.0) / self.per) + self.ph;
        (self.off + self.amp * x.sin() + self.amp2 * (2.0 * x + 0.7).sin()).to_radians()
    }
}
impl AltitudeProvider for Syn {
    fn altitude_at(&self, _: &Geodetic<ECEF>, t: Mjd) -> Radians {
        Radians::new(self.h(tv(t)))
    }
    fn scan_step_hint(&self) -> Option<Days> {
        self.hint.map(Days::new)
    }
}
pub fn site(lat: f64, lon: f64) -> Geodetic<ECEF> {
    Geodetic::<ECEF>::new(Degrees::new(lon), Degrees::new(lat), Meters::new(100.0))
}
pub fn cr(v: &[CrossingEvent]) -> Vec<(f64, bool)> {
    v.iter().map(|c| (tv(c.mjd), c.direction == CrossingDirection::Rising)).collect()
}
pub fn cu(v: &[CulminationEvent]) -> Vec<(f64, f64, bool)> {
    v.iter().map(|c| (tv(c.mjd), c.altitude.value().to_radians(), c.kind == CulminationKind::Max)).collect()
}
pub struct P {
    pub tol: Tol,
    pub opt: SearchOpts,
    pub ext_skip: f64,
    pub ext_dt: f64,
    pub ext_dv: f64,
}
/// All altitude queries of one (target, site, window) for the given thresholds (degrees).
pub fn check_target<T: AltitudeProvider>(l: &mut Local, name: &str, key: &str, tg: &T, st: &Geodetic<ECEF>, s: &Sampled, thr: &[f64], ranges: &[(f64, f64)], p: &P, culm: bool) {
    let h_at = |t: f64| tg.altitude_at(st, mjd(t)).value();
    let w = || win(s.a, s.b);
    for &d in thr {
        let r = d.to_radians();
        l.case(&format!("{name}/above"), &format!("{key} thr={d}"), || check_intervals(s, &ivs(&above_threshold(tg, st, w(), Degrees::new(d), p.opt)), &|h| h - r, &|t| h_at(t) - r, &p.tol));
        l.case(&format!("{name}/below"), &format!("{key} thr={d}"), || check_intervals(s, &ivs(&below_threshold(tg, st, w(), Degrees::new(d), p.opt)), &|h| r - h, &|t| r - h_at(t), &p.tol));
        l.case(&format!("{name}/crossings"), &format!("{key} thr={d}"), || {
            let ev = cr(&crossings(tg, st, w(), Degrees::new(d), p.opt));
            // exact tangency within the window: the number of touching events is not determined
            if s.t.windows(3).enumerate().any(|(i, _)| { let m = s.h[i + 1]; (m - r).abs() < 1e-4 && (s.h[i] - m) * (s.h[i + 2] - m) >= 0.0 }) {
                return Ok(0);
            }
            let o = check_crossings(s, &ev, &|h| h - r, &|t| h_at(t) - r, &p.tol)?;
            // crossings are exactly the interior edges of the above windows
            let iv = ivs(&above_threshold(tg, st, w(), Degrees::new(d), p.opt));
            let mut edges: Vec<(f64, bool)> = vec![];
            for (x, y) in iv {
                for (e, up) in [(x, true), (y, false)] {
                    if e > s.a + 1e-6 && e < s.b - 1e-6 { edges.push((e, up)); }
                }
            }
            let inner: Vec<(f64, bool)> = ev.iter().copied().filter(|e| e.0 > s.a + 1e-6 && e.0 < s.b - 1e-6).collect();
            ensure!(inner.len() == edges.len() && inner.iter().zip(&edges).all(|(a, b)| a.1 == b.1 && (a.0 - b.0).abs() < 1e-6), "events {inner:?} are not the interior edges {edges:?}");
            Ok(o)
        });
    }
    for &(lo, hi) in ranges {
        let (a, b) = (lo.to_radians(), hi.to_radians());
        l.case(&format!("{name}/range"), &format!("{key} range={lo}..{hi}"), || check_intervals(s, &ivs(&altitude_ranges(tg, st, w(), Degrees::new(lo), Degrees::new(hi), p.opt)), &|h| (h - a).min(b - h), &|t| { let h = h_at(t); (h - a).min(b - h) }, &p.tol));
    }
    if culm {
        l.case(&format!("{name}/culminations"), key, || {
            let want = sampled_extrema(s, &h_at);
            let got = cu(&culminations(tg, st, w(), p.opt));
            check_extrema(&want, &got, s.a, s.b, p.ext_dt, p.ext_dv, p.ext_skip)
        });
    }
}

pub fn run(tier: Tier) -> Ctx {
    let mut ctx = Ctx::new("C01", "exploration", tier,
        "product of synthetic altitude signals (offset x amplitude x period x phase x second harmonic x scan hint) x window starts (generic, and aligned to within 0/+-1e-9/+-1e-5 d of a root and of an extremum of the signal) x window lengths from minutes to days x thresholds/ranges; plus stars, directions and all planets on a site grid. Oracle: the target's own altitude sampled every 2-5 minutes. Non-trivial: at least one sample was judged.");
    ctx.assumptions = vec![
        "excursions beyond the threshold last longer than the documented 10-minute scan spacing (2 h for planets)".into(),
        "samples whose altitude is within 1e-5 rad of the threshold or within 1e-6 d of a reported edge are not judged; reported edges must have |altitude - threshold| < 1e-6 rad".into(),
    ];
    let mut sigs = vec![];
    for &off in &[-20.0, 0.0, 35.0] {
        for &amp in &[3.0, 25.0, 50.0] {
            for &per in ctx.pick(&[0.25, 0.9973, 3.1][..], &[0.25, 0.5, 0.9973, 1.0, 3.1, 27.0][..]) {
                for &ph in ctx.pick(&[0.0, 1.9][..], &[0.0, 1.0, 1.9, 3.0, 4.5][..]) {
                    for &amp2 in &[0.0, 2.0] {
                        for &hint in &[None, Some(2.0 / 24.0)] {
                            if per < 0.6 && hint.is_some() { continue; }
                            sigs.push(Syn { off, amp, per, ph, amp2, hint });
                        }
                    }
                }
            }
        }
    }
    let st = site(40.0, -3.0);
    let thr0 = [0.0, -18.0, 12.3, 30.0];
    let lens: &[f64] = ctx.pick(&[0.02, 0.3, 0.5, 1.0, 2.3][..], &[0.004, 0.02, 0.3, 0.5, 1.0, 2.3][..]);
    ctx.par(&sigs, |l, sg| {
        let f = |t: f64| sg.h(t);
        // roots of each threshold and extrema in the first period, for aligned windows
        let probe = Sampled::new(60000.0, 60000.0 + sg.per * 1.05, sg.per / 400.0, f);
        let mut starts = vec![60000.0, 60000.013];
        let add = |t: f64, starts: &mut Vec<f64>| {
            for d in [0.0, 1e-9, -1e-9, 1e-5, -1e-5, 3e-3, -3e-3] {
                starts.push(t + d);
            }
        };
        for th in [0.0f64, 12.3] {
            let r = th.to_radians();
            if let Some(i) = (1..probe.t.len()).find(|&i| (probe.h[i - 1] - r) * (probe.h[i] - r) < 0.0) {
                let (mut a, mut b) = (probe.t[i - 1], probe.t[i]);
                let sa = f(a) > r;
                for _ in 0..60 {
                    let m = 0.5 * (a + b);
                    if (f(m) > r) == sa { a = m } else { b = m }
                }
                add(a, &mut starts);
                // window whose END is aligned
                starts.push(a - 0.3);
                starts.push(a - 0.3 + 1e-9);
                // a root exactly on a 12 h segment edge and on a 10 min scan node
                starts.push(a - 0.5);
                starts.push(a - 10.0 / 1440.0);
            }
        }
        if let Some(e) = sampled_extrema(&probe, &f).first() {
            add(e.0, &mut starts);
            starts.push(e.0 - 10.0 / 1440.0);
            starts.push(e.0 - 19.0 / 1440.0);
            starts.push(e.0 - 0.3 + 8.0 / 1440.0);
        }
        for (wi, &a) in starts.iter().enumerate() {
            for &len in lens {
                let s = Sampled::new(a, a + len, 2.0 / 1440.0, f);
                let p = P { tol: Tol { eps: 1e-5, dt: 1e-6, edge: 1e-6 }, opt: SearchOpts { time_tolerance: Days::new(1e-9) }, ext_skip: 1e-4, ext_dt: 2e-4, ext_dv: 1e-6 };
                let thr: Vec<f64> = if wi < 2 { vec![0.0, -18.0, 12.3, 30.0, 80.0, -80.0] } else { thr0.to_vec() };
                check_target(l, "syn", &format!("{sg:?} w={a:.9}+{len}"), sg, &st, &s, &thr, &[(0.0, 12.3), (-18.0, 30.0), (30.0, 80.0)], &p, true);
            }
        }
    });
    real_targets(&mut ctx);
    ctx
}

fn real_targets(ctx: &mut Ctx) {
    use siderust::bodies::solar_system as ss;
    use siderust::coordinates::spherical::direction;
    let lats: &[f64] = ctx.pick(&[-90.0, -33.0, 0.0, 51.5, 78.0][..], &[-90.0, -66.0, -33.0, -5.0, 0.0, 28.7, 51.5, 66.6, 78.0, 90.0][..]);
    let starts: &[f64] = ctx.pick(&[60010.13][..], &[50000.0, 58849.5, 60010.13, 60310.77, 61200.4][..]);
    let lens: &[f64] = ctx.pick(&[0.37, 2.2][..], &[0.1, 0.37, 1.0, 2.2, 6.0][..]);
    let mut items = vec![];
    for &la in lats {
        for &a in starts {
            for &len in lens {
                for b in 0..11usize {
                    items.push((la, a, len, b));
                }
            }
        }
    }
    ctx.par(&items, |l, &(la, a, len, b)| {
        let st = site(la, 17.0);
        let key = |n: &str| format!("{n} lat={la} w={a}+{len}");
        // planets: fallback spacing of 2 h and VSOP evaluation noise
        let p = P { tol: Tol { eps: 2e-5, dt: 2e-6, edge: 1e-5 }, opt: SearchOpts { time_tolerance: Days::new(1e-9) }, ext_skip: 1e-4, ext_dt: 2e-3, ext_dv: 1e-6 };
        let thr = [0.0, -10.0, 25.0, 60.0];
        let rg = [(0.0, 25.0), (25.0, 60.0)];
        let step = 5.0 / 1440.0;
        macro_rules! go {
            ($n:expr, $t:expr) => {{
                let t = $t;
                let s = Sampled::new(a, a + len, step, |x| t.altitude_at(&st, mjd(x)).value());
                let flat = s.h.iter().cloned().fold(f64::MIN, f64::max) - s.h.iter().cloned().fold(f64::MAX, f64::min) < 0.02;
                check_target(l, "body", &key($n), &t, &st, &s, &thr, &rg, &p, !flat);
            }};
        }
        match b {
            0 => go!("Mercury", ss::Mercury),
            1 => go!("Venus", ss::Venus),
            2 => go!("Mars", ss::Mars),
            3 => go!("Jupiter", ss::Jupiter),
            4 => go!("Saturn", ss::Saturn),
            5 => go!("Uranus", ss::Uranus),
            6 => go!("Neptune", ss::Neptune),
            7 => go!("dir0", direction::ICRS::new(Degrees::new(0.0), Degrees::new(0.0))),
            8 => go!("dir1", direction::ICRS::new(Degrees::new(101.287), Degrees::new(-16.716))),
            9 => go!("dir2", direction::ICRS::new(Degrees::new(300.0), Degrees::new(62.0))),
            _ => go!("dir3", direction::ICRS::new(Degrees::new(210.0), Degrees::new(-70.0))),
        }
    });
}
