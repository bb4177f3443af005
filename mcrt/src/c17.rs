//! C17: Earth-orientation tables, providers, contexts and the UT1 conversions.
use crate::core::*;
use sha2::{Digest, Sha256};
use siderust::astro::earth_rotation::*;
use siderust::astro::eop::{EopError, EopProvider, EopValues, IersEop, NullEop};
use siderust::astro::nutation::Iau2006A;
use siderust::coordinates::cartesian::Position;
use siderust::coordinates::centers::{Geocentric, Geodetic, Topocentric};
use siderust::coordinates::frames::*;
use siderust::coordinates::observation::ObserverState;
use siderust::coordinates::spherical;
use siderust::coordinates::transform::centers::to_topocentric_with;
use siderust::coordinates::transform::context::{AstroContext, DefaultEphemeris, DynAstroContext};
use siderust::coordinates::transform::providers::frame_rotation_as;
use siderust::event::horizontal::equatorial_to_horizontal_true_of_date_with_ctx;
use siderust::formats::iers::eop::{interpolate, read_eop_c04, EopRecord};
use siderust::qtty::unit::{Kilometer, Meter};
use siderust::qtty::{Arcseconds, Days, Degrees, MilliArcseconds, Quantity, Seconds};
use siderust::time::JulianDate;
use std::cell::{Cell, RefCell};
use std::f64::consts::{PI, TAU};
use tempoch::{ModifiedJulianDate, UTC};

const MJD0: f64 = 2_400_000.5;
const AS: f64 = PI / 648_000.0;
type V = [f64; 3];

// ---------------------------------------------------------------------------------------------
// The C04 table
// ---------------------------------------------------------------------------------------------

/// Daily UT1-UTC values: any two differ by a small amount, or by a small amount and a leap second.
const DUT1: [f64; 4] = [-0.412_345, -0.36, 0.601_5, 0.577];
const STEPS: [f64; 3] = [1.0, 0.25, 5.0];

#[derive(Clone, Copy)]
struct Row {
    mjd: f64,
    v: [f64; 6], // x, y, UT1-UTC, LOD, dX, dY as in the file
}
fn row(i: usize, mjd: f64, d: usize) -> Row {
    let k = i as f64;
    Row { mjd, v: [0.1 + 0.013 * k * k, -0.2 + 0.021 * k, DUT1[d], 0.001 - 0.0003 * k, 0.000_123 * (k - 1.3), -0.000_2 + 0.000_05 * k * k] }
}
fn fields(e: &siderust::formats::iers::eop::EopValues) -> [f64; 6] {
    [e.xp.value(), e.yp.value(), e.dut1.value(), e.lod.value(), e.dx.value() / 1000.0, e.dy.value() / 1000.0]
}
/// The table at `t`, from the definition: nodes, straight lines in between, whole seconds of
/// UT1-UTC stepping at the later node, and the end values outside.
fn by_definition(rows: &[Row], t: f64) -> Option<[f64; 6]> {
    let (first, last) = (rows.first()?, rows.last()?);
    if t <= first.mjd {
        return Some(first.v);
    }
    if t >= last.mjd {
        return Some(last.v);
    }
    for r in rows {
        if r.mjd == t {
            return Some(r.v);
        }
    }
    let i = rows.iter().position(|r| r.mjd > t).unwrap();
    let (a, b) = (rows[i - 1], rows[i]);
    let f = (t - a.mjd) / (b.mjd - a.mjd);
    let mut o = [0.0; 6];
    for k in 0..6 {
        let mut d = b.v[k] - a.v[k];
        if k == 2 && d > 0.5 {
            d -= 1.0;
        }
        if k == 2 && d < -0.5 {
            d += 1.0;
        }
        o[k] = a.v[k] + f * d;
    }
    Some(o)
}
const LAYOUTS: usize = 5;
fn text(rows: &[Row], layout: usize) -> String {
    let mut s = String::new();
    let nl = if layout == 2 { "\r\n" } else { "\n" };
    if layout != 1 {
        for h in ["# EARTH ORIENTATION PARAMETER (EOP) PRODUCT", "", "   Date      MJD      x          y        UT1-UTC       LOD         dX        dY        x Err     y Err", "FORMAT(3(I4),I7,2(F11.6),2(F12.7),2(F11.6),2(F11.6),2(F11.7),2(F12.6))", "  (0h UTC)"] {
            s += h;
            s += nl;
        }
    }
    for (i, r) in rows.iter().enumerate() {
        let v = r.v;
        match layout {
            0 | 2 => s += &format!("2024 {:3} {:3} {:>10} {:11.9} {:11.9} {:11.9} {:11.9} {:11.9} {:11.9}", 1 + i, 1 + i, r.mjd, v[0], v[1], v[2], v[3], v[4], v[5]),
            1 => s += &format!("  2024\t1\t{}\t{}\t{:.9}\t{:.9}\t{:.9}\t{:.9}\t{:.9}\t{:.9}", 1 + i, r.mjd, v[0], v[1], v[2], v[3], v[4], v[5]),
            3 => s += &format!("2024 1 {} {} {:e} {:e} {:e} {:e} {:e} {:e} 0.000009 0.000009 0.0000020 0.0000050 0.000042 0.000045", 1 + i, r.mjd, v[0], v[1], v[2], v[3], v[4], v[5]),
            _ => {
                s += &format!("# record {i}{nl}2024 1 {} {} {:+.9} {:+.9} {:+.9} {:+.9} {:+.9} {:+.9}{nl}", 1 + i, r.mjd, v[0], v[1], v[2], v[3], v[4], v[5]);
                s += "trailer";
            }
        }
        if !(layout == 1 && i + 1 == rows.len()) {
            s += nl;
        }
    }
    s
}
fn day(t: f64) -> Option<ModifiedJulianDate<UTC>> {
    ModifiedJulianDate::<UTC>::try_new(Days::new(t)).ok()
}
fn near(a: [f64; 6], b: [f64; 6], tol: f64) -> bool {
    a.iter().zip(b).all(|(x, y)| (x - y).abs() <= tol)
}
fn tables(l: &mut Local, steps: &[usize], values: &[usize], start: f64, layout: usize) {
    let mut rows = vec![];
    let mut t = start;
    for (i, &d) in values.iter().enumerate() {
        rows.push(row(i, t, d));
        t += STEPS[steps.get(i).copied().unwrap_or(0)];
    }
    let key = format!("{start}/{layout}/{steps:?}/{values:?}");
    let txt = text(&rows, layout);
    let mut parsed: Vec<EopRecord> = vec![];
    l.case("read", &key, || {
        let got = read_eop_c04(txt.as_bytes()).map_err(|e| format!("refused: {e}"))?;
        ensure!(got.len() == rows.len(), "{} records read, the table has {}", got.len(), rows.len());
        for (g, w) in got.iter().zip(&rows) {
            ensure!((g.mjd.raw().value() - w.mjd).abs() < 1e-9, "record at {} instead of {}", g.mjd.raw().value(), w.mjd);
            ensure!(near(fields(&g.eop), w.v, 1e-9), "record at {}: {:?} instead of {:?}", w.mjd, fields(&g.eop), w.v);
        }
        parsed = got;
        Ok(hstr(&txt))
    });
    if parsed.len() != rows.len() {
        return;
    }
    l.states += rows.len() as u64 + 1;
    let mut q = vec![start - 400.0, start - 1e-6, t + 1e-6, t + 4000.0];
    for w in rows.windows(2) {
        for f in [0.0, 1e-5, 0.125, 0.5, 0.8, 1.0 - 1e-5] {
            q.push(w[0].mjd + f * (w[1].mjd - w[0].mjd));
        }
    }
    q.extend(rows.last().map(|r| r.mjd));
    for t in q {
        let Some(m) = day(t) else { continue };
        l.transitions += 1;
        l.case("look up", &format!("{key}/{t}"), || {
            let got = interpolate(&parsed, m);
            let want = by_definition(&rows, t);
            match (got, want) {
                (None, None) => Ok(1),
                (Some(g), Some(w)) => {
                    ensure!(near(fields(&g.eop), w, 1e-8), "{:?} instead of {w:?}", fields(&g.eop));
                    ensure!((g.mjd.raw().value() - t.clamp(rows[0].mjd, rows[rows.len() - 1].mjd)).abs() < 1e-9, "answer dated {}", g.mjd.raw().value());
                    Ok(hf(&w) | 1)
                }
                (g, w) => Err(format!("{} instead of {}", if g.is_some() { "a value" } else { "nothing" }, if w.is_some() { "a value" } else { "nothing" })),
            }
        });
    }
}
fn bad_tables(l: &mut Local) {
    let rows: Vec<Row> = (0..3).map(|i| row(i, 60310.0 + i as f64, 0)).collect();
    for layout in [0, 1, 3] {
        let good = text(&rows, layout);
        let lines: Vec<&str> = good.lines().collect();
        for (li, line) in lines.iter().enumerate() {
            let cols: Vec<&str> = line.split_whitespace().collect();
            if cols.len() < 10 || cols[0] != "2024" {
                continue;
            }
            for c in 4..10 {
                for bad in ["****", "0.1x", "-", "NaN", "inf", "1,5", "0..1"] {
                    l.case("unreadable value", &format!("{layout}/{li}/{c}/{bad}"), || {
                        let mut cs = cols.clone();
                        cs[c] = bad;
                        let mut ls: Vec<String> = lines.iter().map(|s| s.to_string()).collect();
                        ls[li] = cs.join(" ");
                        let t = ls.join("\n");
                        // refused, or the day is absent: never another value in its place
                        match read_eop_c04(t.as_bytes()) {
                            Err(_) => Ok(1),
                            Ok(r) => {
                                for g in &r {
                                    let w = rows.iter().find(|w| (w.mjd - g.mjd.raw().value()).abs() < 1e-9).ok_or("a record of another day")?;
                                    ensure!(near(fields(&g.eop), w.v, 1e-9), "the day {} is read as {:?} instead of {:?}", w.mjd, fields(&g.eop), w.v);
                                }
                                Ok(2)
                            }
                        }
                    });
                }
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Providers used by the context checks
// ---------------------------------------------------------------------------------------------

thread_local! {
    static VALUES: Cell<EopValues> = Cell::new(EopValues::default());
    static ASKED: RefCell<Vec<f64>> = const { RefCell::new(vec![]) };
}
/// Answers with the value of the running case, and notes the dates it is asked for.
#[derive(Default, Clone, Copy, Debug)]
struct Told;
impl EopProvider for Told {
    fn eop_at(&self, jd: JulianDate) -> EopValues {
        ASKED.with(|a| a.borrow_mut().push(jd.raw().value()));
        VALUES.with(|v| v.get())
    }
}
/// Covers half of the days only.
#[derive(Default, Clone, Copy, Debug)]
struct Patchy;
impl EopProvider for Patchy {
    fn try_eop_at(&self, jd: JulianDate) -> Result<EopValues, EopError> {
        let j = jd.raw().value();
        if (j.floor() as i64) % 2 == 0 {
            Ok(big(j))
        } else {
            Err(EopError::NoData { jd_utc: j, mjd_utc: j - MJD0 })
        }
    }
    fn eop_at(&self, jd: JulianDate) -> EopValues {
        self.try_eop_at(jd).unwrap_or_default()
    }
}
#[derive(Default, Clone, Copy, Debug)]
struct Big;
impl EopProvider for Big {
    fn eop_at(&self, jd: JulianDate) -> EopValues {
        big(jd.raw().value())
    }
}
fn big(jd: f64) -> EopValues {
    let x = (jd - 2451545.0) / 365.25;
    EopValues { dut1: Seconds::new(0.5 * (x * 0.7).sin()), xp: Arcseconds::new(0.25 * (x * 5.0).cos()), yp: Arcseconds::new(0.35 + 0.2 * (x * 5.0).sin()), dx: MilliArcseconds::new(0.4 * (x * 3.0).sin() + 0.3), dy: MilliArcseconds::new(-0.35 + 0.2 * x.cos()), lod: Seconds::new(0.001) }
}
fn list(e: &EopValues) -> [f64; 6] {
    [e.xp.value(), e.yp.value(), e.dut1.value(), e.lod.value(), e.dx.value(), e.dy.value()]
}
fn vals(f: usize, x: f64) -> EopValues {
    let mut e = EopValues::default();
    match f {
        0 => e.dut1 = Seconds::new(x),
        1 => e.xp = Arcseconds::new(x),
        2 => e.yp = Arcseconds::new(x),
        3 => e.dx = MilliArcseconds::new(x * 1000.0),
        4 => e.dy = MilliArcseconds::new(x * 1000.0),
        _ => e.lod = Seconds::new(x),
    }
    e
}
const FIELD: [&str; 6] = ["dut1", "xp", "yp", "dx", "dy", "lod"];

fn val(j: JulianDate) -> f64 {
    j.raw().value()
}
fn n3(v: V) -> f64 {
    (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt()
}
fn sub(a: V, b: V) -> V {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
type Ctxt<E> = AstroContext<DefaultEphemeris, E>;
fn sites() -> Vec<Geodetic<ECEF>> {
    [(0.0, 0.0), (28.76, -17.88), (-70.0, 120.0), (60.3, 200.0), (90.0, 0.0)].iter().map(|&(la, lo)| Geodetic::<ECEF>::new(Degrees::new(lo), Degrees::new(la), Quantity::<Meter>::new(1200.0))).collect()
}
fn place<E: EopProvider>(site: Geodetic<ECEF>, jd: f64, c: &Ctxt<E>) -> V {
    let p = Position::<Geocentric, EquatorialMeanJ2000, Kilometer>::new(0.0, 0.0, 0.0);
    let q: Position<Topocentric, EquatorialMeanJ2000, Kilometer> = to_topocentric_with(&p, site, JulianDate::new(jd), c);
    [-q.x().value(), -q.y().value(), -q.z().value()]
}
fn pace<E: EopProvider>(site: &Geodetic<ECEF>, jd: f64, c: &Ctxt<E>) -> V {
    let o = ObserverState::topocentric_with(site, JulianDate::new(jd), c);
    let v = o.velocity();
    [v.x().value(), v.y().value(), v.z().value()]
}
/// Every answer that depends on the Earth orientation of a context.
fn answers<E: EopProvider + Clone + Default + std::fmt::Debug>(jd: f64, c: &Ctxt<E>) -> Vec<(String, Vec<f64>)> {
    let t = JulianDate::new(jd);
    let mut o = vec![];
    macro_rules! rot {
        ($($a:ty, $b:ty);*) => { $( o.push((concat!(stringify!($a), ">", stringify!($b)).to_string(), frame_rotation_as::<$a, $b, Iau2006A, DefaultEphemeris, E>(t, c).as_matrix().iter().flatten().copied().collect::<Vec<f64>>())); )* };
    }
    rot!(GCRS, CIRS; CIRS, TIRS; TIRS, ITRF; ITRF, TIRS; TIRS, CIRS; ICRS, EquatorialTrueOfDate; ECEF, EquatorialMeanJ2000; ICRS, ECEF);
    for (i, s) in sites().into_iter().enumerate() {
        o.push((format!("place {i}"), place(s, jd, c).to_vec()));
        o.push((format!("velocity {i}"), pace(&s, jd, c).to_vec()));
        let p = Position::<Topocentric, EquatorialTrueOfDate, Kilometer>::new_with_params(s, 300.0, -400.0, 120.0);
        let h = equatorial_to_horizontal_true_of_date_with_ctx(&spherical::Position::<Topocentric, EquatorialTrueOfDate, Kilometer>::from_cartesian(&p), s, t, c);
        o.push((format!("horizontal {i}"), vec![h.alt().value(), h.az().value()]));
    }
    o.push(("eop".into(), list(&c.eop_at_tt(t)).to_vec()));
    let d = DynAstroContext::with_ephemeris_and_eop(Box::new(DefaultEphemeris::default()), c.eop().clone());
    o.push(("dynamic eop".into(), list(&d.eop_at_tt(t)).to_vec()));
    o
}

/// MJD (UTC) from which TAI-UTC has the value.
const LEAPS: [(f64, f64); 28] = [
    (41317.0, 10.0), (41499.0, 11.0), (41683.0, 12.0), (42048.0, 13.0), (42413.0, 14.0), (42778.0, 15.0), (43144.0, 16.0), (43509.0, 17.0), (43874.0, 18.0), (44239.0, 19.0), (44786.0, 20.0), (45151.0, 21.0), (45516.0, 22.0), (46247.0, 23.0),
    (47161.0, 24.0), (47892.0, 25.0), (48257.0, 26.0), (48804.0, 27.0), (49169.0, 28.0), (49534.0, 29.0), (50083.0, 30.0), (50630.0, 31.0), (51179.0, 32.0), (53736.0, 33.0), (54832.0, 34.0), (56109.0, 35.0), (57204.0, 36.0), (57754.0, 37.0),
];
/// UTC (MJD) of a TT Julian date; none within a leap second.
fn utc_of(tt: f64, leaps: &[(f64, f64)]) -> Option<f64> {
    let mut best = None;
    for (i, &(start, off)) in leaps.iter().enumerate() {
        let utc = (tt - MJD0) - (off + 32.184) / 86400.0;
        let end = leaps.get(i + 1).map_or(f64::INFINITY, |n| n.0);
        if utc >= start && utc < end {
            best = Some(utc);
        }
    }
    best
}
fn era(ut1: f64) -> f64 {
    let du = ut1 - 2451545.0;
    (TAU * (0.779_057_273_264_0 + 0.002_737_811_911_354_48 * du + (du - du.floor()))).rem_euclid(TAU)
}
fn gmst(ut1: f64, tt: f64) -> f64 {
    let t = (tt - 2451545.0) / 36525.0;
    era(ut1) + (0.014506 + t * (4612.156534 + t * (1.3915817 + t * (-0.00000044 + t * (-0.000029956))))) / 3600.0 * PI / 180.0
}
fn turn(a: f64, b: f64) -> f64 {
    let d = (a - b).rem_euclid(TAU);
    d.min(TAU - d)
}

fn contexts(l: &mut Local, jd: f64) {
    let t = JulianDate::new(jd);
    let utc = jd_utc_from_tt_delta_t(t);
    let (null, iers, told, bigc): (Ctxt<NullEop>, Ctxt<IersEop>, Ctxt<Told>, Ctxt<Big>) = Default::default();
    VALUES.with(|v| v.set(EopValues::default()));
    let base = answers(jd, &null);
    let same = |l: &mut Local, what: &str, got: Vec<(String, Vec<f64>)>, want: &[(String, Vec<f64>)]| {
        for (g, w) in got.into_iter().zip(want) {
            l.case("route", &format!("{what}/{jd}/{}", g.0), || {
                let tol = if g.0.starts_with("horizontal") { 1e-9 } else { 1e-13 * w.1.iter().fold(1.0f64, |m, x| m.max(x.abs())) };
                ensure!(g.1.iter().zip(&w.1).all(|(a, b)| (a - b).abs() <= tol), "{:?} instead of {:?}", g.1, w.1);
                Ok(hf(&g.1) | 1)
            });
        }
    };
    // no data: every route takes the documented defaults
    same(l, "no data", answers(jd, &iers), &base);
    // the values of the context are used, all of them, on every route
    let e = big(val(utc));
    VALUES.with(|v| v.set(e));
    ASKED.with(|a| a.borrow_mut().clear());
    let one = answers(jd, &told);
    let asked = ASKED.with(|a| a.take());
    same(l, "same values", answers(jd, &bigc), &one);
    l.case("asked", &format!("{jd}"), || {
        ensure!(asked.len() >= one.len() - 2, "the provider was asked {} times", asked.len());
        for a in &asked {
            ensure!((a - val(utc)).abs() < 1e-9, "asked for {a}, the date is {}", val(utc));
        }
        if let Some(u) = utc_of(jd, &LEAPS).filter(|u| *u < 60800.0) {
            ensure!((val(utc) - MJD0 - u).abs() * 86400.0 < 0.95, "the date asked for is {} s from UTC", (val(utc) - MJD0 - u) * 86400.0);
        }
        Ok(hf(&asked) | 1)
    });
    let (p, d): (Ctxt<Patchy>, _) = (Default::default(), DynAstroContext::with_ephemeris_and_eop(Box::new(DefaultEphemeris::default()), Patchy));
    l.case("absence", &format!("{jd}"), || {
        for k in 0..4 {
            let u = JulianDate::new(jd + k as f64 * 0.5);
            let (a, b, w) = (p.try_eop_at(u), d.try_eop_at(u), Patchy.try_eop_at(u));
            ensure!(a.as_ref().map(list) == w.as_ref().map(list) && b.as_ref().map(list) == w.as_ref().map(list), "the context changes the answer of its provider");
            ensure!(list(&p.eop_at(u)) == list(&Patchy.eop_at(u)) && list(&d.eop_at(u)) == list(&Patchy.eop_at(u)), "the context changes the value of its provider");
        }
        ensure!(matches!(IersEop::new().try_eop_at(t), Err(EopError::NoData { jd_utc, mjd_utc }) if jd_utc == val(t) && (mjd_utc - (val(t) - MJD0)).abs() < 1e-9), "no absence reported without a table");
        ensure!(IersEop::new().mjd_range().is_none() && IersEop::new().len() == 0 && IersEop::new().is_empty(), "a range without a table");
        ensure!(list(&IersEop::new().eop_at(t)) == [0.0; 6] && iers.try_eop_at_tt(t).is_err() && try_jd_utc_from_tt(t).is_err() && try_gmst_with_eop(t).is_err(), "a value without a table");
        Ok(1)
    });
    // size of the effect of each value
    const W: f64 = 1.002_737_811_911_354_48 * TAU / 86400.0;
    for f in 0..6 {
        for x in [0.4, -0.3] {
            VALUES.with(|v| v.set(vals(f, x)));
            for (i, s) in sites().into_iter().enumerate() {
                l.case("effect", &format!("{}/{x}/{jd}/{i}", FIELD[f]), || {
                    let (a, b) = (place(s, jd, &null), place(s, jd, &told));
                    let g = s.to_cartesian::<Kilometer>();
                    let g = [g.x().value(), g.y().value(), g.z().value()];
                    let (moved, want) = (n3(sub(a, b)), match f {
                        0 => x.abs() * W * g[0].hypot(g[1]),
                        1 => x.abs() * AS * g[0].hypot(g[2]),
                        2 => x.abs() * AS * g[1].hypot(g[2]),
                        3 => x.abs() * AS * a[0].hypot(a[2]),
                        4 => x.abs() * AS * a[1].hypot(a[2]),
                        _ => 0.0,
                    });
                    // the date carries 4e-5 s, the pole of date is a third of a degree from that of J2000
                    let tol = match f { 0 => 1e-3 * want, 3 | 4 => 0.03 * x.abs() * AS * n3(a), _ => 1e-4 * want } + 3e-8;
                    ensure!((moved - want).abs() <= tol, "a site moves by {moved} km instead of {want} km");
                    let (u, v) = (pace(&s, jd, &null), pace(&s, jd, &told));
                    let speed = 7.292_115e-5 * g[0].hypot(g[1]) * 86400.0 / 149_597_870.7;
                    let dv = n3(sub(u, v));
                    match f {
                        0 => ensure!((dv - x.abs() * W * speed).abs() <= 1e-3 * dv + 1e-16, "the velocity turns by {dv}, by definition {}", x.abs() * W * speed),
                        5 => ensure!(dv == 0.0, "length of day moves the observer"),
                        _ => ensure!(dv <= x.abs() * AS * speed * 1.02 + 1e-16, "the velocity turns by {dv}"),
                    }
                    Ok(hf(&[moved]) | 1)
                });
            }
            l.case("ut1", &format!("{}/{x}/{jd}", FIELD[f]), || {
                let e = vals(f, x);
                let (a, b) = (val(jd_ut1_from_tt(t)), val(jd_ut1_from_tt_eop(t, &e)));
                let want = if f == 0 { x } else { 0.0 };
                ensure!(((b - a) * 86400.0 - want).abs() < 1.5e-4, "UT1 moves by {} s instead of {want} s", (b - a) * 86400.0);
                let (g, h) = (gmst_from_tt(t).value(), gmst_from_tt_eop(t, &e).value());
                ensure!(turn(g, gmst(a, jd)) < 2e-9 && turn(h, gmst(b, jd)) < 2e-9, "sidereal times {g} and {h}, by definition {} and {}", gmst(a, jd), gmst(b, jd));
                ensure!((0.0..TAU).contains(&g) && (0.0..TAU).contains(&h) && gmst_default(t).value() == g, "sidereal time out of range");
                let ut = e.jd_ut1(t);
                ensure!(((val(ut) - jd) * 86400.0 - want).abs() < 1e-4, "UT1 of a UTC date moves by {}", (val(ut) - jd) * 86400.0);
                Ok(hf(&[b, h]) | 1)
            });
        }
    }
    VALUES.with(|v| v.set(EopValues::default()));
}

/// TT to UT1 runs at the pace of TT across every day boundary.
fn pace_of_ut1(l: &mut Local, mjd: f64) {
    l.case("continuity", &format!("{mjd}"), || {
        let mut last: Option<(f64, f64)> = None;
        for k in -6..=6 {
            let tt = mjd + MJD0 + k as f64 * 20.0 / 86400.0;
            let t = JulianDate::new(tt);
            let u = val(jd_ut1_from_tt(t));
            ensure!(val(jd_utc_from_tt(t)) == u && val(jd_utc_from_tt_delta_t(t)) == u, "the approximate UTC is {} instead of {u}", val(jd_utc_from_tt(t)));
            if let Some((a, b)) = last {
                let d = ((u - b) - (tt - a)) * 86400.0;
                // two tables of the time dependency meet at MJD 41714 with a small step
                let tol = if (41713.0..=41715.0).contains(&mjd) { 0.01 } else { 2e-4 };
                ensure!(d.abs() < tol, "UT1 jumps by {d} s");
            }
            if let Some(utc) = utc_of(tt, &LEAPS) {
                let d = (u - MJD0 - utc) * 86400.0;
                ensure!(d.abs() < 0.95 || mjd > 60800.0, "UT1-UTC is {d} s");
            }
            last = Some((tt, u));
        }
        Ok(hf(&[last.unwrap().1]) | 1)
    });
}

// ---------------------------------------------------------------------------------------------
// Runtime tables
// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug)]
struct Scenario {
    /// TAI-UTC step at 2017-01-01: +1, -1 or 0.
    leap: i32,
    first: i32,
    days: i32,
    /// UT1-UTC on the first day and its daily change.
    dut1: (f64, f64),
    /// Fields missing from this day of the table on: 1 pole, 2 length of day, 4 celestial pole.
    missing: (usize, i32),
}
const LEAP_DAY: i32 = 57754;
const PARTS: usize = 16;
impl Scenario {
    fn leaps(&self) -> Vec<(f64, f64)> {
        let mut v = vec![(41317.0, 10.0), (57204.0, 36.0)];
        if self.leap != 0 {
            v.push((LEAP_DAY as f64, 36.0 + self.leap as f64));
        }
        v
    }
    /// Row of a day: x, y, UT1-UTC, LOD (s), dX, dY (mas).
    fn at(&self, mjd: i32) -> [Option<f64>; 6] {
        let k = (mjd - self.first) as f64;
        let gone = |b: usize| self.missing.0 & b != 0 && mjd - self.first >= self.missing.1;
        let d = self.dut1.0 + self.dut1.1 * k + if mjd >= LEAP_DAY { self.leap as f64 } else { 0.0 };
        let r = |x: f64, p: i32| (x * 10f64.powi(p)).round() / 10f64.powi(p);
        [
            (!gone(1)).then(|| r(0.1 + 0.011 * k, 6)),
            (!gone(1)).then(|| r(0.4 - 0.007 * k, 6)),
            Some(r(d, 7)),
            (!gone(2)).then(|| r(1.2 - 0.15 * k, 4) / 1000.0),
            (!gone(4)).then(|| r(0.3 - 0.02 * k * k, 3)),
            (!gone(4)).then(|| r(-0.2 + 0.09 * k, 3)),
        ]
    }
    /// The table at a UTC date.
    fn look(&self, mjd: f64) -> Option<[Option<f64>; 6]> {
        let lo = mjd.floor() as i32;
        if lo < self.first || lo >= self.first + self.days - 1 {
            return None;
        }
        let (a, b, f) = (self.at(lo), self.at(lo + 1), mjd - lo as f64);
        let mut o = [None; 6];
        for k in 0..6 {
            o[k] = match (a[k], b[k]) {
                (Some(x), Some(y)) => {
                    let step = if k == 2 && lo + 1 == LEAP_DAY { self.leap as f64 } else { 0.0 };
                    Some(x + f * (y - step - x))
                }
                _ => None,
            };
        }
        Some(o)
    }
    fn write(&self, dir: &std::path::Path) {
        let _ = std::fs::remove_dir_all(dir);
        let b = dir.join("bundle");
        std::fs::create_dir_all(&b).unwrap();
        let mut utc = String::from(" 1972 Jan. 1 - 2015 Jul. 1 10s\n");
        utc += if self.leap == 0 { " 2015 Jul. 1 - 36s\n" } else { " 2015 Jul. 1 - 2017 Jan. 1 36s\n" };
        if self.leap != 0 {
            utc += &format!(" 2017 Jan. 1 - {}s\n", 36 + self.leap);
        }
        let mut dt = String::new();
        for y in 2012..2021 {
            for m in 1..=12 {
                dt += &format!(" {y} {m:2} 1 {:.4}\n", 68.184 + 0.0003 * ((y - 2012) * 12 + m) as f64);
            }
        }
        let preds = "MJD YEAR TT-UT\n 59300.0 2021.2 68.30\n 60300.0 2024.0 68.40\n 64300.0 2035.0 68.50\n".to_string();
        let mut eop = String::new();
        for i in 0..self.days {
            let m = self.first + i;
            let v = self.at(m);
            let mut line = vec![b' '; 125];
            let mut put = |at: usize, w: usize, s: String| {
                let s = format!("{s:>w$}");
                line[at - 1..at - 1 + w].copy_from_slice(s.as_bytes());
            };
            put(8, 8, format!("{:.2}", m as f64));
            put(17, 1, "I".into());
            if let (Some(x), Some(y)) = (v[0], v[1]) {
                put(19, 9, format!("{x:.6}"));
                put(38, 9, format!("{y:.6}"));
            }
            put(58, 1, "I".into());
            put(59, 10, format!("{:.7}", v[2].unwrap()));
            if let Some(x) = v[3] {
                put(80, 7, format!("{:.4}", x * 1000.0));
            }
            put(96, 1, "I".into());
            if let (Some(x), Some(y)) = (v[4], v[5]) {
                put(98, 9, format!("{x:.3}"));
                put(117, 9, format!("{y:.3}"));
            }
            eop += &String::from_utf8(line).unwrap();
            eop.push('\n');
        }
        let sum = |s: &str| Sha256::digest(s.as_bytes()).iter().map(|b| format!("{b:02x}")).collect::<String>();
        let prov = format!("fetched_utc = \"2026-01-01T00:00:00\"\nutc_tai_sha256 = \"{}\"\ndelta_t_observed_sha256 = \"{}\"\ndelta_t_predictions_sha256 = \"{}\"\neop_finals_sha256 = \"{}\"\n", sum(&utc), sum(&dt), sum(&preds), sum(&eop));
        for (f, s) in [("UTC-TAI.history", &utc), ("deltat.data", &dt), ("deltat.preds", &preds), ("finals2000A.all", &eop), ("time_data.provenance.toml", &prov)] {
            std::fs::write(b.join(f), s).unwrap();
        }
    }
}
fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    let thorough = tier == Tier::Thorough;
    for leap in [0, 1, -1] {
        let duts: &[(f64, f64)] = match leap {
            0 => &[(0.3, -0.0011), (-0.7, 0.002), (0.85, 0.0)],
            1 => &[(-0.4, -0.0012), (-0.93, 0.0), (-0.1, -0.0021), (-0.55, 0.0015)],
            _ => &[(0.4, 0.0012), (0.88, -0.001), (0.15, 0.0)],
        };
        for &dut1 in duts {
            for days in if thorough { vec![2, 3, 6, 12, 40] } else { vec![2, 6, 12] } {
                for before in if thorough { vec![1, 2, 5, days - 1, days + 4] } else { vec![1, 5] } {
                    let missing: Vec<(usize, i32)> = if thorough && dut1 == duts[0] { (0..8).flat_map(|b| [0, 1, 2].map(|d| (b, d))).filter(|(b, d)| *b != 0 || *d == 0).collect() } else { vec![(0, 0), (7, 2), (4, 0)] };
                    for m in missing {
                        v.push(Scenario { leap, first: LEAP_DAY - before, days, dut1, missing: m });
                    }
                }
            }
        }
    }
    v
}
fn run_scenario(l: &mut Local, s: &Scenario, part: usize) {
    let key = format!("{}/{}+{}/{:?}/{:?}", s.leap, s.first, s.days, s.dut1, s.missing);
    let leaps = s.leaps();
    let end = s.first + s.days - 1;
    let (iers, null, told, bigc): (Ctxt<IersEop>, Ctxt<NullEop>, Ctxt<Told>, Ctxt<Big>) = Default::default();
    if part == 0 { l.case("runtime range", &key, || {
        let e = IersEop::new();
        let r = e.mjd_range().ok_or("no range with a table")?;
        ensure!(r.0.value() == s.first as f64 && r.1.value() == end as f64, "range {:?}", r);
        ensure!(e.len() == s.days as usize && !e.is_empty(), "{} days, the table has {}", e.len(), s.days);
        Ok(1)
    }); }
    // lookups by UTC date
    let mut dates = vec![s.first as f64 - 3.0, s.first as f64 - 1e-6, end as f64 + 1.001, end as f64 + 40.0];
    for d in s.first..end {
        dates.extend([0.0, 1e-6, 0.1, 0.5, 0.75, 1.0 - 1e-6].map(|f| d as f64 + f));
    }
    for (i, m) in dates.into_iter().enumerate() {
        if i % PARTS != part {
            continue;
        }
        let jd = JulianDate::new(m + MJD0);
        l.transitions += 1;
        l.case("runtime look up", &format!("{key}/{m}"), || {
            let got = IersEop::new().try_eop_at(jd);
            let m = val(jd) - MJD0;
            let Some(w) = s.look(m) else {
                ensure!(matches!(got, Err(EopError::NoData { jd_utc, mjd_utc }) if jd_utc == val(jd) && (mjd_utc - m).abs() < 1e-9), "{got:?} outside the table");
                ensure!(list(&IersEop::new().eop_at(jd)) == [0.0; 6], "a value outside the table");
                return Ok(2);
            };
            let g = list(&got.map_err(|e| e.to_string())?);
            for k in 0..6 {
                // a missing column counts as no correction
                let (x, y) = (g[k], w[k].unwrap_or(0.0));
                ensure!((x - y).abs() < 1e-9 * if k > 3 { 100.0 } else { 1.0 }, "column {k}: {x} instead of {y}");
            }
            ensure!(list(&IersEop::new().eop_at(jd)) == g && list(&iers.eop_at(jd)) == g && iers.try_eop_at(jd).map(|e| list(&e)) == Ok(g), "the ways to ask differ");
            Ok(hf(&g) | 1)
        });
    }
    // UT1 runs on through a leap second, which a UTC date cannot name
    if s.first < LEAP_DAY - 1 && end > LEAP_DAY + 1 {
        for k in 0..160 {
            if k % PARTS != part {
                continue;
            }
            let x = -2.0 + k as f64 * 0.025;
            // seconds of TT since the midnight before which the leap second lies
            let tt = LEAP_DAY as f64 + MJD0 + (x + 36.0 + 32.184) / 86400.0;
            let t = JulianDate::new(tt);
            let tt = val(t);
            // from the rows of the table, without a date
            let f = tt - MJD0 - LEAP_DAY as f64 - (36.0 + 32.184) / 86400.0;
            if s.leap == 0 {
                continue;
            }
            let (d0, d1, d2) = (s.at(LEAP_DAY - 1)[2].unwrap(), s.at(LEAP_DAY)[2].unwrap() - s.leap as f64, s.at(LEAP_DAY + 1)[2].unwrap() - s.leap as f64);
            let dut1 = if f < 0.0 { d1 + f * (d1 - d0) } else { d1 + f * (d2 - d1) };
            let want = LEAP_DAY as f64 + MJD0 + f + dut1 / 86400.0;
            l.case("leap second", &format!("{key}/{x}"), || {
                let got = val(jd_ut1_from_tt_eop(t, &iers.eop_at_tt(t)));
                ensure!((got - want).abs() * 86400.0 < 2.5e-4, "UT1 with the values of the table is {} s off", (got - want) * 86400.0);
                let angle = |m: &[[f64; 3]; 3]| (-m[1][0]).atan2(m[0][0]);
                let r = angle(frame_rotation_as::<CIRS, TIRS, Iau2006A, DefaultEphemeris, IersEop>(t, &iers).as_matrix());
                ensure!(turn(r, era(want)) < 4e-8, "the Earth is turned by {r} instead of {}", era(want));
                Ok(hf(&[got]) | 1)
            });
        }
    }
    // conversions by TT date
    let mut secs: Vec<(i32, f64)> = vec![];
    for d in s.first..=end {
        secs.extend([-1.3, -0.97, -0.7, -0.45, -0.2, -0.02, 0.02, 0.3, 0.55, 0.8, 1.1, 30.0, 43200.0, 86398.0].map(|x| (d, x)));
    }
    for (i, (d, x)) in secs.into_iter().enumerate() {
        if i % PARTS != part {
            continue;
        }
        // TAI-UTC before the boundary and after it: both kinds of date are met
        for off in [leaps[1].1, leaps[leaps.len() - 1].1] {
            let tt = d as f64 + MJD0 + (x + off + 32.184) / 86400.0;
            let t = JulianDate::new(tt);
            let tt = val(t);
            let Some(utc) = utc_of(tt, &leaps) else { continue };
            // closer than the resolution of a date to a boundary, or at an end of the table
            let away = |m: f64| ((utc - m) * 86400.0).abs();
            // (a second that is left out gives two dates to some UT1: not told apart)
            if away(LEAP_DAY as f64) < if s.leap < 0 { 1.1 } else { 0.01 } || (s.leap > 0 && leaps.windows(2).any(|w| { let u = tt - MJD0 - (w[0].1 + 32.184) / 86400.0; u > w[1].0 - 0.01 / 86400.0 && u < w[1].0 + 1.01 / 86400.0 })) || away(s.first as f64) < 2.0 || utc < s.first as f64 || away(end as f64) < 2.0 || utc > end as f64 {
                continue;
            }
            let Some(w) = s.look(utc) else { continue };
            l.traces += 1;
            l.case("runtime conversion", &format!("{key}/{d}/{x}/{off}"), || {
                let want_ut1 = utc + MJD0 + w[2].unwrap() / 86400.0;
                let u = val(try_jd_utc_from_tt(t).map_err(|e| e.to_string())?);
                ensure!((u - MJD0 - utc).abs() * 86400.0 < 2.5e-4, "UTC is {} s off", (u - MJD0 - utc) * 86400.0);
                let e = iers.eop_at_tt(t);
                let g = list(&e);
                for k in 0..6 {
                    ensure!((g[k] - w[k].unwrap_or(0.0)).abs() < 1e-6, "column {k} at TT {tt}: {} instead of {:?}", g[k], w[k]);
                }
                ensure!(iers.try_eop_at_tt(t).map(|e| list(&e)) == Ok(g), "the ways to ask differ");
                let off_by = |jd: f64, w: f64| ((jd - w) * 86400.0).abs();
                let ut1 = val(jd_ut1_from_tt_eop(t, &e));
                ensure!(off_by(ut1, want_ut1) < 2.5e-4, "UT1 is {} s off", (ut1 - want_ut1) * 86400.0);
                for dut1 in [0.0, 0.77, -0.5] {
                    let o = val(jd_ut1_from_tt_eop(t, &vals(0, dut1)));
                    ensure!(off_by(o, utc + MJD0 + dut1 / 86400.0) < 2.5e-4, "UT1 of a caller's {dut1} s is {} s off", (o - utc - MJD0) * 86400.0 - dut1);
                }
                let st = try_gmst_with_eop(t).map_err(|e| e.to_string())?.value();
                ensure!(turn(st, gmst(want_ut1, tt)) < 4e-8, "sidereal time {st} instead of {}", gmst(want_ut1, tt));
                // rotations and the other contexts
                let angle = |m: &[[f64; 3]; 3]| (-m[1][0]).atan2(m[0][0]);
                let r = angle(frame_rotation_as::<CIRS, TIRS, Iau2006A, DefaultEphemeris, IersEop>(t, &iers).as_matrix());
                ensure!(turn(r, era(want_ut1)) < 4e-8, "the Earth is turned by {r} instead of {}", era(want_ut1));
                let r = angle(frame_rotation_as::<CIRS, TIRS, Iau2006A, DefaultEphemeris, NullEop>(t, &null).as_matrix());
                ensure!(turn(r, era(utc + MJD0)) < 4e-8, "without corrections the Earth is turned by {r} instead of {}", era(utc + MJD0));
                let r = angle(frame_rotation_as::<CIRS, TIRS, Iau2006A, DefaultEphemeris, Big>(t, &bigc).as_matrix());
                let b = big(utc + MJD0).dut1.value() / 86400.0;
                ensure!(turn(r, era(utc + MJD0 + b)) < 4e-8, "another provider: the Earth is turned by {r} instead of {}", era(utc + MJD0 + b));
                // a context that says what the table says gives the same answers, and is asked for UTC
                VALUES.with(|v| v.set(e));
                ASKED.with(|a| a.borrow_mut().clear());
                let (one, two) = (answers(tt, &iers), answers(tt, &told));
                VALUES.with(|v| v.set(EopValues::default()));
                for a in ASKED.with(|a| a.take()) {
                    ensure!((a - MJD0 - utc).abs() * 86400.0 < 2.5e-4, "a provider is asked for a date {} s from UTC", (a - MJD0 - utc) * 86400.0);
                }
                for (p, q) in one.iter().zip(&two) {
                    ensure!(p == q, "{}: {:?} under the table, {:?} under the same values", p.0, p.1, q.1);
                }
                Ok(hf(&[ut1, st]) | 1)
            });
        }
    }
}

pub fn run(tier: Tier) -> Ctx {
    let mut ctx = Ctx::new("C17", "model_checking", tier, "every C04 table of up to 4 (5) records over a value alphabet x spacings x layouts x lookups at, between and outside nodes; every context kind x parameter x epoch x route; every runtime table of a grid of leap seconds, lengths, positions and missing columns x every second-level neighbourhood of the day boundaries");
    ctx.assumptions = vec!["UT1-UTC changes by less than half a second between records apart from leap seconds".into(), "instants inside a leap second have no UTC date and are left out, as is the second after a negative one (there has been none)".into(), "the two tables of the time dependency that meet at MJD 41714 differ there by 5 ms".into(), "runtime tables are loaded by tempoch from a scratch directory".into()];
    let full = tier == Tier::Thorough;
    let maxlen = if full { 5 } else { 4 };
    let mut items: Vec<(Vec<usize>, Vec<usize>, f64, usize)> = vec![];
    for values in sequences(4, maxlen) {
        let n = values.len();
        let gaps: Vec<Vec<usize>> = if full { product(&vec![3; n.saturating_sub(1)]) } else { (0..3).map(|g| (0..n.saturating_sub(1)).map(|i| (g + i * g) % 3).collect()).collect() };
        for (i, steps) in gaps.into_iter().enumerate() {
            for layout in 0..LAYOUTS {
                if full && n == 5 && (i + layout) % 5 != 0 {
                    continue;
                }
                items.push((steps.clone(), values.clone(), if layout % 2 == 0 { 60310.0 } else { 57752.0 }, layout));
            }
        }
    }
    items.dedup();
    ctx.par(&items, |l, (s, v, start, layout)| tables(l, s, v, *start, *layout));
    let mut l = Local::default();
    bad_tables(&mut l);
    ctx.merge(l);
    // contexts without tables
    let mut epochs = linspace(2441500.7, 2460700.3, ctx.pick(24, 240));
    epochs.extend([2451545.0, 2457754.5, 2457754.5 + 68.184 / 86400.0, 2457754.5 + 69.2 / 86400.0, 2433000.5, 2415020.0, 2463000.5]);
    ctx.par(&epochs, |l, &jd| contexts(l, jd));
    let days: Vec<f64> = if full { (41320..61000).map(|d| d as f64).collect() } else { (41320..61000).step_by(7).map(|d| d as f64).chain(LEAPS.iter().skip(1).map(|x| x.0)).collect() };
    ctx.par(&days, |l, &d| pace_of_ut1(l, d));
    // runtime tables, one after another
    let dir = std::env::temp_dir().join(format!("mcrt-{}", std::process::id()));
    std::env::set_var("TEMPOCH_DATA_DIR", &dir);
    let ss = scenarios(tier);
    let mut loaded = 0u64;
    for s in &ss {
        s.write(&dir);
        match tempoch::update_runtime_time_data() {
            Ok(()) => {
                loaded += 1;
                let parts: Vec<usize> = (0..PARTS).collect();
                ctx.par(&parts, |l, &k| run_scenario(l, s, k));
            }
            Err(e) => {
                // two days are the least that a table may have
                panic!("scenario {s:?}: {e}");
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    ctx.note("runtime_tables", loaded);
    let _ = Days::new(0.0);
    ctx
}
