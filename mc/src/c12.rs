//! C12: two-line element sets and orbit mean-elements messages: round trips over every pair of boundary
//! field values, and every single-character corruption.
use crate::core::*;
use siderust::formats::tle::omm::{json, kvn, xml, Omm};
use siderust::formats::tle::{format_tle, parse_3le, parse_tle, validate_tle_checksum, Classification, InternationalDesignator, SatelliteNumber, TleError, TLE};
use siderust::qtty::{Days, Degrees};
use siderust::time::{JulianDate, Time, UTC};

pub const L1: &str = "1 25544U 98067A   08264.51782528 -.00002182  00000-0 -11606-4 0  2927";
pub const L2: &str = "2 25544  51.6416 247.4627 0006703 130.5360 325.0288 15.72125391563537";
pub const M1: &str = "1 T0001S 58002BCD 99001.00000001  .99999999  99999+9 -00001-9 0  9990";
pub const M2: &str = "2 T0001 180.0000 359.9999 9999999   0.0000  -0.0001  0.0000000199999";

fn sum(p: &str) -> u32 {
    p.bytes().map(|b| match b { b'0'..=b'9' => (b - b'0') as u32, b'-' => 1, _ => 0 }).sum::<u32>() % 10
}
fn seal(p: &str) -> String {
    format!("{p}{}", sum(p))
}
/// civil day number (days since 1970-01-01)
fn civil(y: i64, m: i64, d: i64) -> i64 {
    let y2 = if m <= 2 { y - 1 } else { y };
    let era = y2.div_euclid(400);
    let yoe = y2 - era * 400;
    let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
    era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468
}
fn leap(y: i64) -> bool {
    y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)
}
#[derive(Clone, Copy, PartialEq, Debug)]
struct Ep {
    y: i64,
    doy: i64,
    ns: i64, // of day
}
fn time(e: Ep) -> Time<UTC> {
    // Julian date of UTC, then exact by seconds: use the chrono-free constructor through unix seconds
    let days = civil(e.y, 1, 1) + e.doy - 1;
    unix(days * 86400 + e.ns / 1_000_000_000, (e.ns % 1_000_000_000) as u32)
}
fn unix(s: i64, ns: u32) -> Time<UTC> {
    Time::<UTC>::try_from_chrono(chrono::DateTime::from_timestamp(s, ns).unwrap()).unwrap()
}
/// nanoseconds since 1970, by way of the calendar representation
fn ns_of(t: Time<UTC>) -> Result<i128, String> {
    let d = t.try_to_chrono().map_err(|e| format!("{e:?}"))?;
    Ok(d.timestamp() as i128 * 1_000_000_000 + d.timestamp_subsec_nanos() as i128)
}

/// (value, quantum) pairs: what the two-line format can hold
fn expo_ok(v: f64) -> Option<f64> {
    if !v.is_finite() { return None; }
    if v == 0.0 { return Some(0.0); }
    let m = v.abs();
    if m >= 0.999_995e9 * 1.000_000_1 { return None; }
    let e = (m.log10().floor() as i32 + 1).max(-9);
    Some(0.5e-5 * 10f64.powi(e) * 1.000_001)
}

fn vary(base: &TLE) -> Vec<(&'static str, Vec<Box<dyn Fn(&mut TLE) + Send + Sync>>)> {
    let _ = base;
    macro_rules! fl { ($($x:expr),* $(,)?) => { vec![$(Box::new($x) as Box<dyn Fn(&mut TLE) + Send + Sync>),*] } }
    fn each<T: Copy + Send + Sync + 'static>(v: &[T], f: fn(&mut TLE, T)) -> Vec<Box<dyn Fn(&mut TLE) + Send + Sync>> {
        v.iter().map(|&x| Box::new(move |t: &mut TLE| f(t, x)) as Box<dyn Fn(&mut TLE) + Send + Sync>).collect()
    }
    let ex = [0.0, -0.0, 1e-9, 0.99999e-9, 0.999_994_9e-5, 0.999_996e-5, -0.999_995_1, 0.1, 0.5, 1.0, 9.99994, -9.99996, 1.2345e8, 9.9999e8, 1e9, 1e10, 3e-10, 4.9e-15, 1e-20, -5e-324, f64::NAN, f64::INFINITY, -12345.6];
    let an = [0.0, -0.0, 0.000_04, 0.000_06, 99.999_94, 99.999_96, 359.999_94, 359.999_96, 360.0, 999.999_9, 999.999_96, 1000.0, -0.000_04, -0.000_06, -99.999_9, -99.999_96, -100.0, f64::NAN, f64::NEG_INFINITY, 1e300];
    vec![
        ("id", each(&[0u32, 1, 99999, 100_000, 179_999, 180_000, 229_999, 230_000, 339_999, 340_000, 999_999_999, u32::MAX], |t, v| t.norad_id = SatelliteNumber(v))),
        ("class", fl![|t: &mut TLE| t.classification = Classification::Unclassified, |t: &mut TLE| t.classification = Classification::Classified, |t: &mut TLE| t.classification = Classification::Secret]),
        ("designator", each(&["", "98067A", "00001ABC", "58002B", "56999ZZZ", "98067ABCD", "12", "éé", "98 67", "99001\n", " 98067A", "A-1", "2024-1", "987-6", "1&<>\"'"], |t, v| t.international_designator = InternationalDesignator(v.to_string()))),
        ("epoch", each(&[
            Ep { y: 2008, doy: 264, ns: 44_740_104_192_000 },
            Ep { y: 1962, doy: 1, ns: 0 }, Ep { y: 1963, doy: 365, ns: 86_399_999_999_999 }, Ep { y: 1968, doy: 366, ns: 5 },
            Ep { y: 2056, doy: 366, ns: 86_399_999_000_000 }, Ep { y: 2056, doy: 366, ns: 86_399_999_999_999 }, Ep { y: 2057, doy: 1, ns: 0 },
            Ep { y: 1999, doy: 365, ns: 86_399_999_999_999 }, Ep { y: 2000, doy: 366, ns: 86_399_999_900_000 }, Ep { y: 2000, doy: 60, ns: 1 },
            Ep { y: 2023, doy: 365, ns: 86_399_999_567_999 }, Ep { y: 2023, doy: 365, ns: 86_399_999_568_001 }, Ep { y: 2023, doy: 9, ns: 86_399_999_600_000 }, Ep { y: 2023, doy: 99, ns: 86_399_999_999_999 },
            Ep { y: 2024, doy: 1, ns: 432_000 }, Ep { y: 2024, doy: 1, ns: 431_999 }, Ep { y: 2024, doy: 100, ns: 43_200_000_432_001 },
        ], |t, e| t.epoch = time(e))),
        ("ndot", each(&[0.0, -0.0, 1e-8, 0.4e-8, -0.6e-8, 0.5, 0.999_999_99, 0.999_999_994, 0.999_999_996, 1.0, -1.0, 17.0, f64::NAN, f64::INFINITY], |t, v| t.mean_motion_dot = v)),
        ("nddot", each(&ex, |t, v| t.mean_motion_ddot = v)),
        ("bstar", each(&ex, |t, v| t.bstar = v)),
        ("elset", each(&[0u16, 1, 999, 9999, 10000, u16::MAX], |t, v| t.element_set_number = v)),
        ("rev", each(&[0u32, 9, 99999, 100_000, u32::MAX], |t, v| t.revolution_number_at_epoch = v)),
        ("inc", each(&an, |t, v| t.inclination = Degrees::new(v))),
        ("raan", each(&an, |t, v| t.raan = Degrees::new(v))),
        ("ecc", each(&[0.0, -0.0, 1e-7, 0.4e-7, 0.6e-7, 0.1, 0.5, 0.999_999_9, 0.999_999_94, 0.999_999_96, 1.0, 1.5, -1e-3, -0.4e-7, f64::NAN, f64::INFINITY], |t, v| t.eccentricity = v)),
        ("argp", each(&an, |t, v| t.argument_of_perigee = Degrees::new(v))),
        ("anomaly", each(&an, |t, v| t.mean_anomaly = Degrees::new(v))),
        ("motion", each(&[0.0, 1e-8, 0.4e-8, 1.002_738, 9.999_999_994, 9.999_999_996, 15.5, 99.999_999_99, 99.999_999_996, 100.0, -9.0, -10.0, f64::NAN, f64::INFINITY], |t, v| t.mean_motion = siderust::qtty::Quantity::new(v))),
        ("name", each(&[None, Some("ISS (ZARYA)"), Some(""), Some("A & B <c> \"d\" 'e'"), Some("x = y"), Some("  padded "), Some("line\nbreak"), Some("tab\tin"), Some("</OBJECT_NAME><EPOCH>x</EPOCH>"), Some("été 猫"), Some("COMMENT"), Some("&amp;lt;"), Some("back\\slash \u{7f}")], |t, v: Option<&'static str>| t.name = v.map(str::to_string))),
    ]
}

fn fit(v: f64, width: usize, dec: usize) -> bool {
    v.is_finite() && format!("{v:.dec$}").len() <= width
}
/// Some(true): representable, Some(false): not, None: both answers are fine
fn tle_representable(t: &TLE) -> Result<Option<bool>, String> {
    let d = &t.international_designator.0;
    if t.norad_id.0 >= 340_000 || d.len() > 8 || !d.bytes().all(|b| (32..127).contains(&b)) || d.trim() != d.as_str() {
        return Ok(Some(false));
    }
    let ns = ns_of(t.epoch)?;
    let lo = civil(1957, 1, 1) as i128 * 86_400_000_000_000;
    let hi = civil(2057, 1, 1) as i128 * 86_400_000_000_000;
    let mut grey = false;
    if ns < lo || ns >= hi {
        if ns < lo - 500_000 || ns >= hi { return Ok(Some(false)); }
        grey = true;
    } else if ns > hi - 500_000 {
        grey = true;
    }
    let scaled = |v: f64, s: f64, max: f64| -> Option<bool> { if !v.is_finite() || (v * s).abs() >= max + 0.5 { Some(false) } else if (v * s).abs() > max + 0.4 { None } else { Some(true) } };
    match scaled(t.mean_motion_dot, 1e8, 99_999_999.0) { Some(false) => return Ok(Some(false)), None => grey = true, _ => {} }
    match scaled(t.eccentricity, 1e7, 9_999_999.0) { Some(false) => return Ok(Some(false)), None => grey = true, _ => {} }
    if t.eccentricity < 0.0 {
        if t.eccentricity < -0.5e-7 { return Ok(Some(false)); }
        grey = true;
    }
    for v in [t.bstar, t.mean_motion_ddot] {
        if expo_ok(v).is_none() { return Ok(Some(false)); }
        if v != 0.0 && v.abs() < 0.1e-9 { grey = true; }
    }
    if t.element_set_number > 9999 || t.revolution_number_at_epoch > 99999 { return Ok(Some(false)); }
    for a in [t.inclination, t.raan, t.argument_of_perigee, t.mean_anomaly] {
        if !fit(a.value(), 8, 4) { return Ok(Some(false)); }
    }
    if !fit(t.mean_motion.value(), 11, 8) { return Ok(Some(false)); }
    Ok(if grey { None } else { Some(true) })
}
fn num(what: &str, got: f64, want: f64, tol: f64) -> Result<(), String> {
    ensure!((got - want).abs() <= tol, "{what} read back as {got:e}, written {want:e}");
    Ok(())
}
/// Compare all but name and designator.
fn same(g: &TLE, t: &TLE, q: [f64; 6], ep_ns: i128) -> Result<(), String> {
    ensure!(g.norad_id == t.norad_id && g.classification == t.classification && g.element_set_number == t.element_set_number && g.revolution_number_at_epoch == t.revolution_number_at_epoch, "integer fields differ: {g:?}");
    let (a, b) = (ns_of(g.epoch)?, ns_of(t.epoch)?);
    ensure!((a - b).abs() <= ep_ns, "epoch read back {} ns off", a - b);
    num("n-dot", g.mean_motion_dot, t.mean_motion_dot, q[0])?;
    num("eccentricity", g.eccentricity, t.eccentricity, q[1])?;
    for (n, x, y) in [("inclination", g.inclination, t.inclination), ("node", g.raan, t.raan), ("perigee", g.argument_of_perigee, t.argument_of_perigee), ("anomaly", g.mean_anomaly, t.mean_anomaly)] {
        num(n, x.value(), y.value(), q[2] + y.value().abs() * 1e-15)?;
    }
    num("mean motion", g.mean_motion.value(), t.mean_motion.value(), q[3] + t.mean_motion.value().abs() * 1e-15)?;
    num("b-star", g.bstar, t.bstar, q[4])?;
    num("n-ddot", g.mean_motion_ddot, t.mean_motion_ddot, q[5])
}
fn check_tle(t: &TLE) -> Outcome {
    let rep = tle_representable(t)?;
    let r = guard(|| format_tle(t))?;
    let (l1, l2) = match r {
        Err(e) => {
            ensure!(rep != Some(true), "representable set refused: {e}");
            return Ok(hstr(&format!("{e}")));
        }
        Ok(x) => x,
    };
    ensure!(rep != Some(false), "set that does not fit the format was written: {l1:?} {l2:?}");
    for (l, c) in [(&l1, '1'), (&l2, '2')] {
        ensure!(l.is_ascii() && l.len() == 69 && l.starts_with(c), "malformed line {l:?}");
        ensure!(l[68..] == sum(&l[..68]).to_string(), "checksum of {l:?}");
        ensure!(guard(|| validate_tle_checksum(l).is_ok())?, "own checksum refused: {l:?}");
        for &i in if c == '1' { &[1usize, 8, 17, 32, 43, 52, 61, 63][..] } else { &[1usize, 7, 16, 25, 33, 42, 51][..] } {
            ensure!(l.as_bytes()[i] == b' ', "column {} of {l:?} is not blank", i + 1);
        }
    }
    let g = guard(|| parse_tle(&l1, &l2))?.map_err(|e| format!("own output refused: {e}: {l1:?} {l2:?}"))?;
    ensure!(g.international_designator == t.international_designator, "designator {:?}", g.international_designator);
    same(&g, t, [0.5001e-8, 0.5001e-7, 0.5001e-4, 0.5001e-8, expo_ok(t.bstar).unwrap(), expo_ok(t.mean_motion_ddot).unwrap()], 500_000).map_err(|e| format!("{e}; {l1:?} {l2:?}"))?;
    // rewriting what was read changes nothing
    let again = guard(|| format_tle(&g))?.map_err(|e| format!("rewrite refused: {e}"))?;
    let g2 = parse_tle(&again.0, &again.1).map_err(|e| e.to_string())?;
    same(&g2, &g, [1e-15, 1e-15, 1e-12, 1e-12, expo_ok(t.bstar).unwrap() * 1e-4, expo_ok(t.mean_motion_ddot).unwrap() * 1e-4], 100_000).map_err(|e| format!("second round: {e}"))?;
    Ok(hstr(&l1) ^ hstr(&l2).rotate_left(7) | 1)
}
pub fn omm_of(t: &TLE, eph: u8) -> Omm {
    let mut o = Omm::from_tle(t);
    o.ephemeris_type = eph;
    o
}
fn omm_writable(o: &Omm) -> bool {
    [o.mean_motion.value(), o.eccentricity, o.inclination.value(), o.ra_of_asc_node.value(), o.arg_of_pericenter.value(), o.mean_anomaly.value(), o.bstar, o.mean_motion_dot, o.mean_motion_ddot].iter().all(|v| v.is_finite())
        && !o.object_name.contains(|c: char| c.is_control()) && !o.object_id.contains(|c: char| c.is_control())
}
fn check_omm(t: &TLE, eph: u8) -> Outcome {
    let o = omm_of(t, eph);
    let mut h = 0u64;
    let enc: [(&str, fn(&Omm) -> Result<String, TleError>, fn(&str) -> Result<Omm, TleError>); 4] = [
        ("KVN", kvn::write, kvn::read), ("XML", xml::write, xml::read), ("JSON", json::write, json::read),
        ("JSON list", |o| json::write_many(std::slice::from_ref(o)), |s| json::read_many(s).map(|mut v| if v.len() == 1 { v.remove(0) } else { panic!("{} items", v.len()) })),
    ];
    for (n, w, r) in enc {
        let text = match guard(|| w(&o))? {
            Err(e) => {
                ensure!(!omm_writable(&o), "{n}: refused: {e}");
                h ^= hstr(&e.to_string());
                continue;
            }
            Ok(t) => t,
        };
        let g = guard(|| r(&text))?.map_err(|e| format!("{n}: own output refused: {e}\n{text}"))?;
        let json = n.starts_with('J');
        ensure!(g.object_name.trim() == o.object_name.trim() && g.object_id.trim() == o.object_id.trim(), "{n}: names read back as {:?} {:?}", g.object_name, g.object_id);
        ensure!(g.ephemeris_type == o.ephemeris_type, "{n}: ephemeris type {}", g.ephemeris_type);
        let (gt, ot) = (g.to_tle(), o.to_tle());
        let rel = |v: f64| v.abs() * 0.5001e-8 + 1e-323;
        let q = if json { [0.0; 6] } else { [rel(t.mean_motion_dot), 0.5001e-7, 0.5001e-4, 0.5001e-8, rel(t.bstar), rel(t.mean_motion_ddot)] };
        same(&gt, &ot, q, 20_000).map_err(|e| format!("{n}: {e}"))?;
        h ^= hstr(&text);
    }
    // the conversion itself keeps every element
    let back = o.to_tle();
    ensure!(back.international_designator.0 == t.international_designator.0.trim(), "designator {:?} became {:?} through the message", t.international_designator, back.international_designator);
    if omm_writable(&o) {
        same(&back, t, [0.0; 6], 0)?;
    }
    Ok(h | 1)
}

pub fn run(tier: Tier) -> Ctx {
    let thorough = tier == Tier::Thorough;
    let mut ctx = Ctx::new("C12", "exploration", tier,
        "every pair (thorough: also every triple over the rounding-boundary values) of boundary values over all sixteen element-set fields, written and read back as a two-line set and in the key-value, XML and JSON messages; every single-character substitution, deletion, insertion and truncation of two sets, with stale and with recomputed checksums; every catalogue-number edge; every message field replaced by malformed, non-finite, out-of-range and missing values. Non-trivial: the set was written and compared, or refused with a reason.");
    ctx.assumptions = vec!["values within a tenth of a printed unit of the largest printable value, and magnitudes that need a two-digit negative exponent, may be either refused or rounded; leading and trailing blanks of names are not significant; a two-line set may carry extra blanks".into()];
    let base = parse_tle(L1, L2).expect("reference set");
    let fields = vary(&base);
    // ---- pairs ----
    let mut items: Vec<(usize, usize, usize, usize)> = vec![];
    for a in 0..fields.len() {
        for i in 0..fields[a].1.len() {
            items.push((a, i, a, i));
            for b in a + 1..fields.len() {
                for j in 0..fields[b].1.len() {
                    items.push((a, i, b, j));
                }
            }
        }
    }
    ctx.par(&items, |l, &(a, i, b, j)| {
        let mut t = base.clone();
        (fields[a].1[i])(&mut t);
        (fields[b].1[j])(&mut t);
        let key = if a == b { format!("{}#{i}", fields[a].0) } else { format!("{}#{i} {}#{j}", fields[a].0, fields[b].0) };
        l.case("tle", &key, || check_tle(&t));
        l.case("omm", &key, || check_omm(&t, (i % 5) as u8));
    });
    if thorough {
        let mut items: Vec<[usize; 6]> = vec![];
        for a in 0..fields.len() {
            for b in a + 1..fields.len() {
                for c in b + 1..fields.len() {
                    for i in (0..fields[a].1.len()).step_by(2) {
                        for j in (0..fields[b].1.len()).step_by(2) {
                            for k in (0..fields[c].1.len()).step_by(2) {
                                items.push([a, i, b, j, c, k]);
                            }
                        }
                    }
                }
            }
        }
        ctx.par(&items, |l, x| {
            let mut t = base.clone();
            for p in 0..3 {
                (fields[x[2 * p]].1[x[2 * p + 1]])(&mut t);
            }
            let key = format!("{}#{} {}#{} {}#{}", fields[x[0]].0, x[1], fields[x[2]].0, x[3], fields[x[4]].0, x[5]);
            l.case("tle-triple", &key, || check_tle(&t));
            l.case("omm-triple", &key, || check_omm(&t, 255));
        });
    }
    // ---- catalogue numbers ----
    let mut ids: Vec<u32> = (0..34).flat_map(|k| [k * 10_000, k * 10_000 + 1, k * 10_000 + 9_999]).collect();
    ids.extend([340_000, 1_000_000, 99_999_999]);
    ctx.par(&ids, |l, &id| {
        l.case("catalogue", &format!("{id}"), || {
            let f = guard(|| SatelliteNumber(id).format_alpha5())?;
            if id >= 340_000 {
                ensure!(f.is_err(), "wrote {f:?}");
                return Ok(1);
            }
            let f = f.map_err(|e| e.to_string())?;
            const A: &[u8] = b"ABCDEFGHJKLMNPQRSTUVWXYZ";
            let want = if id < 100_000 { format!("{id:05}") } else { format!("{}{:04}", A[(id / 10_000 - 10) as usize] as char, id % 10_000) };
            ensure!(f == want, "wrote {f:?}, expected {want:?}");
            ensure!(guard(|| SatelliteNumber::parse(&f))? == Ok(SatelliteNumber(id)), "read back differently");
            let mut t = base.clone();
            t.norad_id = SatelliteNumber(id);
            check_tle(&t)?;
            check_omm(&t, 0)
        });
    });
    // ---- corruption of two-line sets ----
    let sets = [(L1.to_string(), L2.to_string()), (seal(&M1[..68]), seal(&M2[..68]))];
    for s in &sets {
        let r = parse_tle(&s.0, &s.1);
        let mut l = Local::default();
        l.case("corrupt", &format!("reference {}", &s.0[2..7]), || {
            let t = r.as_ref().map_err(|e| format!("valid set refused: {e}"))?;
            check_tle(t)
        });
        ctx.merge(l);
    }
    let repl: Vec<String> = (32u8..127).map(|b| (b as char).to_string()).chain(["é", "猫", "\u{0}", "\n", "\r", "\t", "😀", "٣"].map(str::to_string)).collect();
    let items: Vec<(usize, usize, usize)> = (0..2).flat_map(|s| (0..2).flat_map(move |li| (0..69).map(move |p| (s, li, p)))).collect();
    ctx.par(&items, |l, &(s, li, p)| {
        let good = if li == 0 { &sets[s].0 } else { &sets[s].1 };
        let parse = |x: &str| -> Result<Result<TLE, TleError>, String> {
            guard(|| if li == 0 { parse_tle(x, &sets[s].1) } else { parse_tle(&sets[s].0, x) })
        };
        let sane = |t: &TLE| -> Result<(), String> {
            let v = [t.mean_motion_dot, t.mean_motion_ddot, t.bstar, t.inclination.value(), t.raan.value(), t.eccentricity, t.argument_of_perigee.value(), t.mean_anomaly.value(), t.mean_motion.value()];
            ensure!(v.iter().all(|x| x.is_finite()) && (0.0..1.0).contains(&t.eccentricity) && t.element_set_number <= 9999 && t.revolution_number_at_epoch <= 99999 && t.norad_id.0 < 340_000, "accepted impossible values: {t:?}");
            let y = ns_of(t.epoch)?.div_euclid(86_400_000_000_000) as i64;
            ensure!((civil(1957, 1, 1)..=civil(2057, 1, 1)).contains(&y), "epoch outside the two-digit years");
            Ok(())
        };
        for (ri, r) in repl.iter().enumerate() {
            l.case("corrupt", &format!("set {s} line {} col {} -> {r:?}", li + 1, p + 1), || {
                let bad = format!("{}{r}{}", &good[..p], &good[p + 1..]);
                let orig = good.as_bytes()[p];
                let res = parse(&bad)?;
                let chk = guard(|| validate_tle_checksum(&bad).is_ok())?;
                let digit = r.len() == 1 && r.as_bytes()[0].is_ascii_digit() && orig.is_ascii_digit() && r.as_bytes()[0] != orig;
                ensure!(!digit || (res.is_err() && !chk), "a changed digit was accepted");
                ensure!(r.len() == 1 || (res.is_err() && !chk), "wrong length accepted");
                if p == 68 && r.as_bytes()[0] != orig {
                    ensure!(res.is_err() && !chk, "wrong checksum accepted");
                }
                if p == 0 && r.as_bytes()[0] != orig {
                    ensure!(res.is_err(), "wrong line number accepted");
                }
                if let Ok(t) = &res { sane(t)?; }
                // same damage under a matching checksum; also with the multi-byte character kept to 69 bytes
                if p < 68 {
                    let b2 = format!("{}{r}{}", &good[..p], &good[p + 1..68]);
                    if b2.is_char_boundary(68.min(b2.len())) && b2.len() == 68 {
                        let f = seal(&b2);
                        if let Ok(t) = parse(&f)? {
                            sane(&t)?;
                            if (2..7).contains(&p) && SatelliteNumber::parse(&f[2..7]) != SatelliteNumber::parse(&good[2..7]) {
                                return Err(format!("mismatched satellite numbers accepted: {f:?}"));
                            }
                        }
                    }
                    if r.len() > 1 && p + r.len() <= 69 {
                        let f = format!("{}{r}{}", &good[..p], &good[p + r.len()..]);
                        ensure!(parse(&f)?.is_err(), "non-ASCII line accepted: {f:?}");
                        guard(|| validate_tle_checksum(&f).is_ok())?;
                    }
                }
                Ok(fnv(&[s as u8, li as u8, p as u8, ri as u8]))
            });
        }
        l.case("length", &format!("set {s} line {} at {p}", li + 1), || {
            for bad in [good[..p].to_string(), format!("{}{}", &good[..p], &good[p + 1..]), format!("{} {}", &good[..p], &good[p..]), format!("{}0{}", &good[..p], &good[p..])] {
                ensure!(parse(&bad)?.is_err(), "length {} accepted", bad.len());
                ensure!(guard(|| validate_tle_checksum(&bad).is_err())?, "checksum of a line of length {} accepted", bad.len());
            }
            Ok(p as u64 | 1)
        });
        // every pair of digits exchanged or jointly altered keeping single faults apart
        for q in p + 1..68 {
            l.case("two columns", &format!("set {s} line {} cols {} {}", li + 1, p + 1, q + 1), || {
                let mut b = good.as_bytes().to_vec();
                if p >= 68 || b[p] == b[q] { return Ok(0); }
                b.swap(p, q);
                let t = String::from_utf8(b).unwrap();
                if let Ok(t) = parse(&t)? { sane(&t)?; }
                Ok((p * 70 + q) as u64 | 1)
            });
        }
    });
    // names of three-line sets
    let mut l = Local::default();
    for (n, want) in [("ISS (ZARYA)", Some("ISS (ZARYA)")), ("0 ISS (ZARYA)", Some("ISS (ZARYA)")), ("", None), ("   ", None), ("  X-1  ", Some("X-1")), ("2001 ODYSSEY", Some("2001 ODYSSEY")), ("05 é", Some("05 é")), ("0 ", None)] {
        l.case("name", n, || {
            let t = guard(|| parse_3le(n, L1, L2))?.map_err(|e| e.to_string())?;
            ensure!(t.name.as_deref() == want, "{:?}", t.name);
            same(&t, &base, [0.0; 6], 0)?;
            Ok(hstr(n))
        });
    }
    ctx.merge(l);
    // ---- epoch spellings: fractions and zone marks ----
    {
        let o = omm_of(&base, 0);
        let fracs = [("", 0u32), (".5", 500_000_000), (".000001", 1_000), (".123456", 123_456_000), (".999999", 999_999_000)];
        let zones = [("", true), ("Z", true), ("+00:00", true), ("+01:00", false), ("-05:00", false), ("+00:30", false), ("+0530", false), ("+", false), ("+x", false), (" UTC", false), ("z+01:00", false)];
        let days = [(2008i64, 9i64, 20i64), (2000, 2, 29), (2024, 12, 31)];
        let items = product(&[fracs.len(), zones.len(), days.len(), 3]);
        ctx.par(&items, |l, p| {
            let ((f, ns), (z, ok), (y, m, d)) = (fracs[p[0]], zones[p[1]], days[p[2]]);
            let x = format!("{y}-{m:02}-{d:02}T23:59:58{f}{z}");
            l.case("epoch spelling", &format!("{} {x}", ["KVN", "XML", "JSON"][p[3]]), || {
                let fix = |t: &str, pre: &str, new: String| t.lines().map(|ln| if ln.trim_start().starts_with(pre) { new.clone() } else { ln.to_string() }).collect::<Vec<_>>().join("\n");
                let r = guard(|| match p[3] {
                    0 => kvn::read(&fix(&kvn::write(&o)?, "EPOCH", format!("EPOCH = {x}"))),
                    1 => xml::read(&fix(&xml::write(&o)?, "<EPOCH>", format!("<EPOCH>{x}</EPOCH>"))),
                    _ => {
                        let mut j: serde_json::Value = serde_json::from_str(&json::write(&o)?).unwrap();
                        j["EPOCH"] = x.clone().into();
                        json::read(&j.to_string())
                    }
                })?;
                match r {
                    Err(e) => ensure!(!ok, "refused: {e}"),
                    Ok(g) => {
                        ensure!(ok, "read as {}", ns_of(g.epoch)?);
                        let want = (civil(y, m, d) as i128 * 86400 + 86398) * 1_000_000_000 + ns as i128;
                        ensure!((ns_of(g.epoch)? - want).abs() < 60_000, "epoch {} instead of {want}", ns_of(g.epoch)?);
                    }
                }
                Ok(hstr(&x) | 1)
            });
        });
    }
    // ---- malformed messages ----
    let o = omm_of(&base, 0);
    let docs = [("KVN", kvn::write(&o).unwrap()), ("XML", xml::write(&o).unwrap()), ("JSON", json::write(&o).unwrap())];
    let keys: [(&str, u8); 16] = [("EPOCH", b'e'), ("MEAN_MOTION", b'f'), ("ECCENTRICITY", b'f'), ("INCLINATION", b'f'), ("RA_OF_ASC_NODE", b'f'), ("ARG_OF_PERICENTER", b'f'), ("MEAN_ANOMALY", b'f'), ("EPHEMERIS_TYPE", b'u'), ("CLASSIFICATION_TYPE", b'c'), ("NORAD_CAT_ID", b'n'), ("ELEMENT_SET_NO", b'u'), ("REV_AT_EPOCH", b'u'), ("BSTAR", b'g'), ("MEAN_MOTION_DOT", b'g'), ("MEAN_MOTION_DDOT", b'g'), ("MEAN_ELEMENT_THEORY", b't')];
    let vals = ["", "abc", "NaN", "inf", "-inf", "-1", "1e400", "99999999999999999999", "1.5.2", "0x10", "12 34", "1,5", "-", "é", "2008-13-01T00:00:00", "2008-02-30T00:00:00", "2008-02-29T24:00:00", "2007-02-29T00:00:00", "SGP4-XP", "U", "70000", "0.25", "7"];
    let mut items = vec![];
    for d in 0..3 { for k in 0..keys.len() { for v in 0..=vals.len() { items.push((d, k, v)); } } }
    ctx.par(&items, |l, &(d, k, v)| {
        let (key, kind) = keys[k];
        l.case("message", &format!("{} {key} {}", docs[d].0, if v == vals.len() { "absent".into() } else { format!("{:?}", vals[v]) }), || {
            let val = vals.get(v).copied();
            let numeric = val.and_then(|x| x.parse::<f64>().ok()).filter(|x| x.is_finite());
            let text = match docs[d].0 {
                "KVN" => docs[d].1.lines().filter_map(|ln| if ln.split('=').next().unwrap().trim() == key { val.map(|v| format!("{key} = {v}")) } else { Some(ln.to_string()) }).collect::<Vec<_>>().join("\n"),
                "XML" => docs[d].1.lines().filter_map(|ln| if ln.starts_with(&format!("<{key}>")) { val.map(|v| format!("<{key}>{v}</{key}>")) } else { Some(ln.to_string()) }).collect::<Vec<_>>().join("\n"),
                _ => {
                    let mut j: serde_json::Value = serde_json::from_str(&docs[d].1).unwrap();
                    match val {
                        None => { j.as_object_mut().unwrap().remove(key); }
                        Some(x) => { j[key] = if b"ect".contains(&kind) { x.into() } else { x.parse::<serde_json::Number>().map(serde_json::Value::Number).unwrap_or(x.into()) } }
                    }
                    j.to_string()
                }
            };
            let r = guard(|| match docs[d].0 { "KVN" => kvn::read(&text), "XML" => xml::read(&text), _ => json::read(&text) })?;
            let optional = b"ucgt".contains(&kind);
            if val.is_none() {
                ensure!(r.is_ok() == optional, "field absent: accepted {}", r.is_ok());
                return Ok(1);
            }
            let x = val.unwrap();
            let ok = match kind {
                b'f' | b'g' => numeric.is_some(),
                b'u' => x.parse::<u32>().is_ok_and(|n| n <= match key { "EPHEMERIS_TYPE" => 255, "ELEMENT_SET_NO" => 65535, _ => u32::MAX }),
                b'n' => x.parse::<u32>().is_ok(),
                b'c' => if x.is_empty() { return Ok(0) } else { x.starts_with(['U', 'C', 'S']) },
                b't' => if x.is_empty() { return Ok(0) } else { false },
                _ => false,
            };
            match r {
                Err(_) => ensure!(!ok, "value {x:?} refused"),
                Ok(g) => {
                    ensure!(ok, "value {x:?} accepted: {g:?}");
                    let got = match key { "MEAN_MOTION" => g.mean_motion.value(), "ECCENTRICITY" => g.eccentricity, "INCLINATION" => g.inclination.value(), "RA_OF_ASC_NODE" => g.ra_of_asc_node.value(), "ARG_OF_PERICENTER" => g.arg_of_pericenter.value(), "MEAN_ANOMALY" => g.mean_anomaly.value(), "EPHEMERIS_TYPE" => g.ephemeris_type as f64, "NORAD_CAT_ID" => g.norad_id.0 as f64, "ELEMENT_SET_NO" => g.element_set_no as f64, "REV_AT_EPOCH" => g.rev_at_epoch as f64, "BSTAR" => g.bstar, "MEAN_MOTION_DOT" => g.mean_motion_dot, "MEAN_MOTION_DDOT" => g.mean_motion_ddot, _ => numeric.unwrap_or(0.0) };
                    ensure!(Some(got) == numeric || kind == b'c', "value {x:?} read as {got}");
                }
            }
            Ok(hstr(x) ^ hstr(key).rotate_left(9) | 1)
        });
    });
    let _ = (Days::new(0.0), JulianDate::new(0.0));
    ctx
}
