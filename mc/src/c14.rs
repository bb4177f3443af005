//! C14: geodetic product files: round trips, record sequences, stream against batch.
use crate::core::*;
use chrono::{DateTime, NaiveDate, Utc};
use siderust::formats::igs::{antex, orbex, sinex, sp3};
use siderust::formats::ilrs::{cpf, crd};
use siderust::formats::rinex::{doris, nav, obs};
use siderust::formats::{sck, ParseMode};
use std::collections::HashMap;
use std::io::Read;
use tempoch::{Time, UTC};

/// resolution of a UTC instant in the time library (double-precision seconds since J2000)
const TQ: f64 = 2.5e-7;

pub fn utc(y: i32, m: u32, d: u32, h: u32, mi: u32, s: u32, ns: u32) -> Option<Time<UTC>> {
    let n = NaiveDate::from_ymd_opt(y, m, d)?.and_hms_nano_opt(h, mi, s, ns)?;
    Time::<UTC>::try_from_chrono(DateTime::<Utc>::from_naive_utc_and_offset(n, Utc)).ok()
}
pub fn secs(t: Time<UTC>) -> f64 {
    let (a, b) = t.to_j2000s().raw_seconds_pair();
    a.value() + b.value()
}
/// `b` is what was written: its calendar reading is that of the time library (tens of microseconds
/// off the instant itself for some epochs), from there on it must survive to `q`
fn same(a: Time<UTC>, b: Time<UTC>, q: f64) -> bool {
    let b = b.try_to_chrono().ok().and_then(|c| Time::<UTC>::try_from_chrono(c).ok()).unwrap_or(b);
    (secs(a) - secs(b)).abs() <= q + TQ
}
fn day_secs(d: NaiveDate, sod: f64) -> Option<Time<UTC>> {
    let n = d.and_hms_opt(0, 0, 0)? + chrono::Duration::nanoseconds((sod * 1e9).round() as i64);
    Time::<UTC>::try_from_chrono(DateTime::<Utc>::from_naive_utc_and_offset(n, Utc)).ok()
}
fn mjd(y: i32, m: u32, d: u32) -> i64 {
    (NaiveDate::from_ymd_opt(y, m, d).unwrap() - NaiveDate::from_ymd_opt(1858, 11, 17).unwrap()).num_days()
}
fn near(got: f64, want: f64, q: f64) -> bool {
    (got - want).abs() <= 0.5001 * q + want.abs() * 4e-16 || got == want || (got.is_nan() && want.is_nan())
}
/// one byte at a time
struct Drip<'a>(&'a [u8]);
impl Read for Drip<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = 1.min(self.0.len()).min(b.len());
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}
/// instants around every rounding and calendar edge
pub fn instants(t: bool) -> Vec<(String, Time<UTC>)> {
    let mut v = vec![];
    let days: &[(i32, u32, u32)] = &[(1972, 1, 1), (1972, 6, 30), (1980, 1, 6), (1999, 12, 31), (2000, 1, 1), (2000, 2, 29), (2001, 2, 28), (2016, 12, 31), (2017, 1, 1), (2023, 12, 31), (2024, 2, 28), (2024, 2, 29), (2024, 12, 31), (2026, 3, 1)];
    let hms: &[(u32, u32, u32)] = &[(0, 0, 0), (0, 0, 1), (0, 59, 59), (11, 59, 59), (12, 0, 0), (12, 34, 56), (23, 59, 0), (23, 59, 58), (23, 59, 59), (9, 9, 9), (12, 0, 59)];
    let ns: &[u32] = &[0, 1, 4, 5, 120, 500, 49_000, 1_000_000, 123_456_789, 499_499_999, 499_999_999, 500_000_000, 500_500_000, 999_000_000, 999_400_000, 999_499_999, 999_500_001, 999_600_000, 999_940_000, 999_999_000, 999_999_400, 999_999_940, 999_999_960, 999_999_990, 999_999_994, 999_999_996, 999_999_999];
    for &(y, m, d) in days {
        for &(h, mi, s) in hms {
            for &n in ns {
                if let Some(x) = utc(y, m, d, h, mi, s, n) {
                    v.push((format!("{y}-{m:02}-{d:02} {h:02}:{mi:02}:{s:02}+{n}ns"), x));
                }
            }
        }
        for n in [0, 1, 400_000_000, 500_000_000, 999_400_000, 999_600_000, 999_999_960, 999_999_999] {
            if let Some(x) = utc(y, m, d, 23, 59, 59, 1_000_000_000 + n) {
                v.push((format!("{y}-{m:02}-{d:02} leap second+{n}ns"), x));
            }
        }
    }
    if t {
        // every minute end of a year at a coarse step
        for k in 0..2000u32 {
            let (d, m) = (k % 28 + 1, k % 12 + 1);
            let x = utc(1973 + (k % 50) as i32, m, d, k % 24, k % 60, 59, 999_999_000 + (k * 7) % 1000).unwrap();
            v.push((format!("minute end {k}"), x));
        }
    }
    v
}
const VALS: [f64; 22] = [0.0, -0.0, 1.0, -1.0, 0.5e-6, -0.4e-6, 1e-9, 0.0005, -0.0005, 1.0 / 3.0, -26_559.123_456_789, 26_559.999_999_6, 999_999.999_999, -999_999.999_999, 9_999_999.999_999, -9_999_999.5, 123_456_789.123_456_7, -1e10, 9_999_999_999.999, 99_999_999_999.0, 1e15, -1e22];

// ---------------------------------------------------------------- SP3
fn sp3_key(e: &sp3::Sp3Epoch) -> String {
    format!("{:?} {:?}", secs(e.time), e.positions.iter().map(|p| (p.sat_id.clone(), p.position.x().value(), p.position.y().value(), p.position.z().value(), p.clock.value())).collect::<Vec<_>>())
}
type Sp3Out = (Vec<String>, Vec<String>, Option<String>);
fn sp3_batch(r: impl Read) -> Result<Result<Sp3Out, String>, String> {
    Ok(match guard(|| sp3::read_sp3(r))? {
        Ok(f) => Ok((f.header, f.epochs.iter().map(sp3_key).collect(), None)),
        Err(e) => Err(e.to_string()),
    })
}
fn sp3_stream(r: impl Read) -> Result<Sp3Out, String> {
    guard(|| {
        let mut st = match sp3::Sp3Stream::new(r) {
            Ok(s) => s,
            Err(e) => return (vec![], vec![], Some(e.to_string())),
        };
        let (h, mut v) = (st.header().to_vec(), vec![]);
        loop {
            match st.next_epoch() {
                Ok(Some(e)) => v.push(sp3_key(&e)),
                Ok(None) => {
                    for _ in 0..3 {
                        if !matches!(st.next_epoch(), Ok(None)) {
                            return (h, v, Some("records after the end".into()));
                        }
                    }
                    return (h, v, None);
                }
                Err(e) => return (h, v, Some(e.to_string())),
            }
        }
    })
}
fn sp3_agree(text: &[u8]) -> Result<Result<Sp3Out, String>, String> {
    let b = sp3_batch(text)?;
    let s = sp3_stream(text)?;
    match (&b, &s) {
        (Ok(b), s) => ensure!(b == s, "stream {s:?}, at once {b:?}"),
        (Err(e), s) => ensure!(s.2.as_ref() == Some(e), "at once refused ({e}), stream {:?} after {} epochs", s.2, s.1.len()),
    }
    let d = sp3_stream(Drip(text))?;
    ensure!(d == s, "stream in single bytes {d:?}, whole {s:?}");
    Ok(b)
}
pub const SP3_LINES: [&str; 12] = [
    "#cP2024  1  1  0  0  0.00000000       2 ORBIT IGS14 FIT AIUB",
    "*  2024  1  1  0 15  0.00000000",
    "*  2024  2 29 23 59 59.12345678",
    "PG01  12345.678901 -23456.789012   3456.789012    123.456789",
    "PG32 -12345.678901  23456.789012  -3456.789012 999999.999999  7  5  7 113",
    "VG01  12345.678901 -23456.789012   3456.789012    123.456789",
    "EP  55   55   55     222  1234567 -1234567",
    "EOF",
    "",
    "PG01 x 1 2 3",
    "PG0",
    "*  2024 13  1  0  0  0.0",
];
fn sp3_seq(s: &[usize]) -> Outcome {
    let mut text = String::new();
    for &k in s {
        text.push_str(SP3_LINES[k]);
        text.push('\n');
    }
    // what the lines say
    let (mut head, mut eps, mut bad): (Vec<String>, Vec<(f64, Vec<(&str, [f64; 4])>)>, bool) = (vec![], vec![], false);
    for &k in s {
        if k == 7 {
            break;
        }
        let l = SP3_LINES[k];
        if eps.is_empty() && !l.starts_with('*') {
            head.push(l.into());
            continue;
        }
        match k {
            1 => eps.push((secs(utc(2024, 1, 1, 0, 15, 0, 0).unwrap()), vec![])),
            2 => eps.push((secs(utc(2024, 2, 29, 23, 59, 59, 123_456_780).unwrap()), vec![])),
            3 => eps.last_mut().unwrap().1.push(("G01", [12345.678901, -23456.789012, 3456.789012, 123.456789])),
            4 => eps.last_mut().unwrap().1.push(("G32", [-12345.678901, 23456.789012, -3456.789012, 999999.999999])),
            9..=11 => {
                bad = true;
                break;
            }
            _ => {}
        }
    }
    let got = sp3_agree(text.as_bytes())?;
    match got {
        Err(e) => {
            ensure!(bad, "well-formed file refused: {e}");
            Ok(hstr(&e) | 1)
        }
        Ok((h, e, _)) => {
            ensure!(!bad, "malformed line accepted");
            ensure!(h == head, "header {h:?}, file has {head:?}");
            let want: Vec<String> = eps.iter().map(|(t, p)| format!("{t:?} {:?}", p.iter().map(|(i, v)| (i.to_string(), v[0], v[1], v[2], v[3])).collect::<Vec<_>>())).collect();
            let tol = e.len() == want.len() && e.iter().zip(&want).all(|(a, b)| a == b || {
                let (ta, pa) = a.split_once(' ').unwrap();
                let (tb, pb) = b.split_once(' ').unwrap();
                pa == pb && (ta.parse::<f64>().unwrap() - tb.parse::<f64>().unwrap()).abs() < TQ
            });
            ensure!(tol, "read {e:?}, file has {want:?}");
            // the same content with other line ends and cut into single bytes
            for alt in [text.replace('\n', "\r\n"), text.trim_end_matches('\n').to_string()] {
                if alt.is_empty() || (alt.len() + 1 != text.len() && !alt.contains('\r')) {
                    continue;
                }
                let g = sp3_agree(alt.as_bytes())?.map_err(|e| format!("other line ends refused: {e}"))?;
                ensure!(g.0 == h && g.1 == e, "other line ends read {g:?}, not {h:?} {e:?}");
            }
            Ok(hstr(&format!("{h:?}{e:?}")) | 1)
        }
    }
}
pub fn sp3_pos(id: &str, v: [f64; 4]) -> sp3::Sp3Position {
    sp3::Sp3Position { sat_id: id.into(), position: affn::cartesian::Position::new(v[0], v[1], v[2]), clock: qtty::time::Microseconds::new(v[3]) }
}
fn sp3_round(rec: &sp3::Sp3Record, must: bool) -> Outcome {
    let mut b = vec![];
    if let Err(e) = guard(|| sp3::write_sp3(&mut b, rec).map_err(|e| e.to_string()))? {
        ensure!(!must, "encodable record refused: {e}");
        return Ok(hstr(&e) | 1);
    }
    sp3_agree(&b)?.map_err(|e| format!("own output refused: {e}\n{}", String::from_utf8_lossy(&b)))?;
    let f = sp3::read_sp3(&b[..]).map_err(|e| e.to_string())?;
    let show = || String::from_utf8_lossy(&b).into_owned();
    ensure!(f.header == rec.header, "header {:?} read back as {:?}", rec.header, f.header);
    ensure!(f.epochs.len() == rec.epochs.len(), "{} epochs read back as {}\n{}", rec.epochs.len(), f.epochs.len(), show());
    for (g, w) in f.epochs.iter().zip(&rec.epochs) {
        ensure!(same(g.time, w.time, 0.51e-8), "epoch {} s read back as {} s\n{}", secs(w.time), secs(g.time), show());
        ensure!(g.positions.len() == w.positions.len(), "{} positions read back as {}", w.positions.len(), g.positions.len());
        for (a, b) in g.positions.iter().zip(&w.positions) {
            ensure!(a.sat_id == b.sat_id, "satellite {:?} read back as {:?}", b.sat_id, a.sat_id);
            for (x, y) in [(a.position.x(), b.position.x()), (a.position.y(), b.position.y()), (a.position.z(), b.position.z())] {
                ensure!(near(x.value(), y.value(), 1e-6), "{:?} read back as {:?}", y.value(), x.value());
            }
            ensure!(near(a.clock.value(), b.clock.value(), 1e-6), "clock {} read back as {}", b.clock.value(), a.clock.value());
        }
    }
    Ok(fnv(&b) | 1)
}
fn sp3_all(ctx: &Ctx, t: bool) {
    let first: Vec<usize> = (0..12).collect();
    ctx.par(&first, |l, &a| {
        for s in sequences(12, ctx.pick(3, 4)) {
            let v: Vec<usize> = std::iter::once(a).chain(s).collect();
            l.case("sp3-lines", &format!("{v:?}"), || sp3_seq(&v));
        }
        // deeper below an epoch line
        for s in sequences(9, ctx.pick(4, 5)) {
            if s.len() < 3 { continue }
            let v: Vec<usize> = [a, 1].into_iter().chain(s.iter().map(|k| k + 1)).collect();
            l.case("sp3-lines-deep", &format!("{v:?}"), || sp3_seq(&v));
        }
    });
    let ins = instants(t);
    ctx.par(&ins, |l, (k, x)| {
        l.case("sp3-epoch", k, || sp3_round(&sp3::Sp3Record { header: vec!["#c".into()], epochs: vec![sp3::Sp3Epoch { time: *x, positions: vec![sp3_pos("G01", [1.0, -2.0, 3.0, 0.5])] }] }, true));
    });
    let mut l = Local::default();
    let t0 = utc(2024, 1, 1, 0, 0, 0, 0).unwrap();
    for i in 0..4 {
        for v in VALS {
            l.case("sp3-value", &format!("field {i} = {v:e}"), || {
                let mut x = [1.0, -2.0, 3.0, 0.5];
                x[i] = v;
                sp3_round(&sp3::Sp3Record { header: vec![], epochs: vec![sp3::Sp3Epoch { time: t0, positions: vec![sp3_pos("G01", x), sp3_pos("E02", [4.0, 5.0, 6.0, -0.5])] }] }, v.abs() < 1e6)
            });
        }
    }
    for id in ["G01", "R24", "1", " 1", "", "L 5", "G1 ", "G001", "é", "éé", "G\n1", "*", "EOF", "PPP", "VVV", "   "] {
        l.case("sp3-satellite", &format!("{id:?}"), || sp3_round(&sp3::Sp3Record { header: vec![], epochs: vec![sp3::Sp3Epoch { time: t0, positions: vec![sp3_pos(id, [1.0, 2.0, 3.0, 4.0]), sp3_pos("G02", [1.0, 2.0, 3.0, 4.0])] }] }, ["G01", "R24"].contains(&id)));
    }
    for h in ["", "#c", "%c G  cc", "+   ", "/* x", "PG01 1 2 3 4", "*", "* 2024", "EOF", "EOF ", " EOF", "a\nb", "a\r", "é", "\t"] {
        for n in 0..3 {
            l.case("sp3-header", &format!("{h:?} with {n} epochs"), || {
                let e = sp3::Sp3Epoch { time: t0, positions: vec![] };
                sp3_round(&sp3::Sp3Record { header: vec!["#c".into(), h.into(), "++".into()], epochs: vec![e; n] }, ["#c", "+   ", "/* x"].contains(&h))
            });
        }
    }
    for n in product(&[4, 4, 4]) {
        l.case("sp3-shape", &format!("{n:?}"), || {
            let eps = n.iter().enumerate().filter(|(_, &k)| k < 3).map(|(i, &k)| sp3::Sp3Epoch { time: utc(2024, 1, 1 + (2 - i) as u32, 0, 0, 30, 0).unwrap(), positions: (0..k).map(|j| sp3_pos(["G01", "G02", "G01"][(i + j) % 3], [i as f64, j as f64, 1.5, -2.25])).collect() }).collect();
            sp3_round(&sp3::Sp3Record { header: vec!["#c".into()], epochs: eps }, true)
        });
    }
    ctx.merge(l);
}

// ---------------------------------------------------------------- SINEX
pub fn snx(rows: &[String]) -> String {
    format!("%=SNX 2.10 IGS 24:001:00000 IGS 00:000:00000 23:365:86370 P 00000 0 S\n*----\n+SITE/ID\n*Code PT __DOMES__\n ABCD  A 10001M001 P X  1 1 1.0  2 2 2.0 3.0\n-SITE/ID\n+SOLUTION/ESTIMATE\n*Index\n{}-SOLUTION/ESTIMATE\n+SOLUTION/APRIORI\n     1 STAX   ZZZZ  A    1 10:001:00000 m    2  9.0e+06  1.0E-04\n-SOLUTION/APRIORI\n%ENDSNX\n     1 STAX   YYYY  A    1 10:001:00000 m    2  9.0e+06  1.0E-04\n", rows.concat())
}
const PAR: [&str; 7] = ["STAX", "STAY", "STAZ", "VELX", "VELY", "VELZ", "XGC"];
const SITES: [(&str, &str, &str); 4] = [("ABCD", "A", "1"), ("ABCD", "B", "1"), ("ABCD", "A", "2"), ("WXYZ", "A", "1")];
fn snx_seq(rows: &[(usize, usize)], epoch: &str, want_mjd: f64) -> Outcome {
    let val = |s: usize, p: usize| (s as f64 + 1.0) * 1e6 + p as f64 * 1e3 + 0.125;
    let text = snx(&rows.iter().enumerate().map(|(i, &(s, p))| format!("{:>6} {:<6} {:>4} {:>2} {:>4} {epoch} m    2 {:.14e} 1.0E-04\n", i + 1, PAR[p], SITES[s].0, SITES[s].1, SITES[s].2, val(s, p))).collect::<Vec<_>>());
    let mut want: Vec<(usize, [Option<f64>; 7])> = vec![];
    for &(s, p) in rows {
        let i = want.iter().position(|w| w.0 == s).unwrap_or_else(|| { want.push((s, [None; 7])); want.len() - 1 });
        want[i].1[p] = Some(val(s, p));
    }
    want.retain(|w| w.1[..3].iter().all(Option::is_some));
    let mut h = 1;
    for mode in [ParseMode::Strict, ParseMode::Permissive] {
        let f = guard(|| sinex::read_sinex(text.as_bytes(), mode).map_err(|e| e.to_string()))?.map_err(|e| format!("well-formed file refused: {e}\n{text}"))?;
        ensure!(f.agency == "IGS", "agency {:?}", f.agency);
        let got: Vec<String> = f.stations.iter().map(|s| format!("{}/{}/{}", s.code, s.point_code, s.solution_id)).collect();
        let exp: Vec<String> = want.iter().map(|w| { let s = SITES[w.0]; format!("{}/{}/{}", s.0, s.1, s.2) }).collect();
        ensure!(got == exp, "stations {got:?}, file has {exp:?}");
        for (g, (_, w)) in f.stations.iter().zip(&want) {
            ensure!([g.position.x().value(), g.position.y().value(), g.position.z().value()] == [w[0].unwrap(), w[1].unwrap(), w[2].unwrap()], "{:?} for {w:?}", g.position);
            let v = match (w[3], w[4], w[5]) { (Some(a), Some(b), Some(c)) => Some([a, b, c]), _ => None };
            ensure!(g.velocity_m_yr == v, "velocity {:?}, file has {v:?}", g.velocity_m_yr);
            ensure!((g.ref_epoch_mjd - want_mjd).abs() < 1e-9, "epoch {epoch} read as MJD {}, not {want_mjd}", g.ref_epoch_mjd);
        }
        h ^= hstr(&format!("{got:?}{mode:?}"));
    }
    Ok(h | 1)
}
fn sinex_all(ctx: &Ctx, t: bool) {
    let e = ("10:001:00000", mjd(2010, 1, 1) as f64);
    let perms = permutations(6);
    ctx.par(&perms, |l, p| {
        l.case("sinex-order", &format!("one station {p:?}"), || snx_seq(&p.iter().map(|&x| (0, x)).collect::<Vec<_>>(), e.0, e.1));
        if t || p[0] == 0 {
            // the rows of a second and third station woven in
            for (a, b) in [(1, 2), (2, 3), (3, 0), (1, 3)] {
                l.case("sinex-order", &format!("stations {a} and {b} woven {p:?}"), || {
                    let mut r = vec![];
                    for (i, &x) in p.iter().enumerate() {
                        r.push((a, x));
                        if i % 2 == 0 { r.push((b, p[5 - i])); r.push((b, x)); }
                    }
                    snx_seq(&r, e.0, e.1)
                });
            }
        }
    });
    let mut l = Local::default();
    // which parameters are present, per station
    for k in 0..128usize {
        for j in [127, 7, 63, 0, 3] {
            l.case("sinex-subset", &format!("{k:07b} then {j:07b}"), || {
                let r: Vec<(usize, usize)> = (0..7).filter(|i| k >> i & 1 == 1).map(|i| (3, i)).chain((0..7).filter(|i| j >> i & 1 == 1).map(|i| (1, i))).collect();
                snx_seq(&r, e.0, e.1)
            });
        }
    }
    for s in sequences(4, 4) {
        l.case("sinex-stations", &format!("{s:?}"), || snx_seq(&s.iter().flat_map(|&x| (0..3).map(move |p| (x, p))).collect::<Vec<_>>(), e.0, e.1));
    }
    for yy in 0..100i32 {
        let y = if yy <= 50 { 2000 + yy } else { 1900 + yy };
        for doy in [1u32, 2, 31, 32, 59, 60, 61, 365, 366] {
            for sod in [0u32, 1, 43200, 86399] {
                let Some(d) = NaiveDate::from_yo_opt(y, doy) else { continue };
                let want = (d - NaiveDate::from_ymd_opt(1858, 11, 17).unwrap()).num_days() as f64 + sod as f64 / 86400.0;
                l.case("sinex-epoch", &format!("{yy:02}:{doy:03}:{sod:05}"), || snx_seq(&[(0, 0), (0, 1), (0, 2)], &format!("{yy:02}:{doy:03}:{sod:05}"), want));
            }
        }
    }
    for ep in ["24:366", "24", "x:001:00000", "24:x:00000", "24:001:x", "23:366:00000", "24:367:00000", "24:001:00000:0", "24-001-00000"] {
        l.case("sinex-bad-epoch", ep, || {
            let text = snx(&(0..3).map(|p| format!("{p} {} ABCD A 1 {ep} m 2 1.5 0.1\n", PAR[p])).collect::<Vec<_>>());
            match guard(|| sinex::read_sinex(text.as_bytes(), ParseMode::Strict))? { Err(e) => Ok(hstr(&e.to_string()) | 1), Ok(f) => Err(format!("accepted with epoch MJD {:?}", f.stations.first().map(|s| s.ref_epoch_mjd))) }
        });
    }
    ctx.merge(l);
}

// ---------------------------------------------------------------- ORBEX
const OBX: [&str; 14] = ["##  2024 060 43200.5", "## 2023 365 0.0", "#ORB", "#CLK", "#ATT", "#XYZ", " G01 1.5 -2.5 3.5", " G02 1 2 3 4 5 6", " E03 0.5 0.25 -0.25 0.125", "* comment", "%x", "+EPHEMERIS/DATA", "-EPHEMERIS/DATA", "%ENDORBEX"];
fn obx_seq(s: &[usize]) -> Outcome {
    let text: String = std::iter::once("%=ORBEX 0.09\n".to_string()).chain(s.iter().map(|&k| format!("{}\n", OBX[k]))).collect();
    let mut ep = 0.0;
    let mut sec = 0;
    let (mut o, mut c, mut a, mut bad) = (vec![], vec![], vec![], false);
    for &k in s {
        match k {
            0 => ep = mjd(2024, 2, 29) as f64 + 43200.5 / 86400.0,
            1 => ep = mjd(2023, 12, 31) as f64,
            2..=4 => sec = k,
            5 => sec = 0,
            6..=8 => {
                let f: Vec<&str> = OBX[k].split_whitespace().collect();
                let n: Vec<f64> = f[1..].iter().map(|x| x.parse().unwrap()).collect();
                match sec {
                    2 => o.push(format!("{} {ep} {:?} {:?}", f[0], &n[..3], (n.len() >= 6).then(|| n[3..6].to_vec()))),
                    3 => c.push(format!("{} {ep} {}", f[0], n[0])),
                    4 if n.len() >= 4 => a.push(format!("{} {ep} {:?}", f[0], &n[..4])),
                    4 => { bad = true; break }
                    _ => {}
                }
            }
            13 => break,
            _ => {}
        }
    }
    let mut h = 1;
    for mode in [ParseMode::Strict, ParseMode::Permissive] {
        match guard(|| orbex::read_orbex(text.as_bytes(), mode))? {
            Err(e) => ensure!(bad && mode == ParseMode::Strict, "refused: {e}"),
            Ok(f) => {
                ensure!(!(bad && mode == ParseMode::Strict), "short record accepted");
                ensure!(f.version == "0.09", "version {}", f.version);
                let go: Vec<String> = f.orbits.iter().map(|r| format!("{} {} {:?} {:?}", r.sat, r.epoch_mjd, r.pos_m, r.vel_m_s.map(|v| v.to_vec()))).collect();
                let gc: Vec<String> = f.clocks.iter().map(|r| format!("{} {} {}", r.sat, r.epoch_mjd, r.bias_s)).collect();
                let ga: Vec<String> = f.attitudes.iter().map(|r| format!("{} {} {:?}", r.sat, r.epoch_mjd, r.quaternion)).collect();
                if !bad {
                    ensure!((&go, &gc, &ga) == (&o, &c, &a), "read {go:?} {gc:?} {ga:?}, file has {o:?} {c:?} {a:?}");
                }
                h ^= hstr(&format!("{go:?}{gc:?}{ga:?}"));
            }
        }
    }
    Ok(h | 1)
}
fn orbex_all(ctx: &Ctx) {
    let first: Vec<usize> = (0..OBX.len()).collect();
    ctx.par(&first, |l, &a| {
        for s in sequences(OBX.len(), ctx.pick(3, 4)) {
            let v: Vec<usize> = std::iter::once(a).chain(s).collect();
            l.case("orbex-lines", &format!("{v:?}"), || obx_seq(&v));
        }
    });
    let mut l = Local::default();
    for y in [1972, 1999, 2000, 2019, 2024, 2100] {
        for doy in 1..=366u32 {
            let Some(d) = NaiveDate::from_yo_opt(y, doy) else { continue };
            l.case("orbex-epoch", &format!("{y} {doy}"), || {
                for sod in ["0", "00000.0000000", "43200.5", "86399.9999999"] {
                    let text = format!("%=ORBEX 0.09\n## {y} {doy:03} {sod} 3\n#CLK\n G01 1.0e-9\n");
                    let f = orbex::read_orbex(text.as_bytes(), ParseMode::Strict).map_err(|e| e.to_string())?;
                    let want = (d - NaiveDate::from_ymd_opt(1858, 11, 17).unwrap()).num_days() as f64 + sod.parse::<f64>().unwrap() / 86400.0;
                    ensure!(f.clocks.len() == 1 && (f.clocks[0].epoch_mjd - want).abs() < 1e-10 && f.clocks[0].bias_s == 1e-9, "{sod}: {:?}", f.clocks);
                }
                Ok(1)
            });
        }
    }
    for e in ["## 2024", "## 2024 60", "##", "## x 060 0", "## 2024 x 0", "## 2024 060 x", "## 2023 366 0", "## 2024 367 0", "## 2024 000 0"] {
        l.case("orbex-bad-epoch", e, || match guard(|| orbex::read_orbex(format!("%=ORBEX 0.09\n## 2024 001 0\n#CLK\n G01 1e-9\n{e}\n#CLK\n G02 2e-9\n").as_bytes(), ParseMode::Strict))? {
            Err(e) => Ok(hstr(&e.to_string()) | 1),
            Ok(f) => Err(format!("accepted, second record at MJD {:?}", f.clocks.last().map(|c| c.epoch_mjd))),
        });
    }
    ctx.merge(l);
}

// ---------------------------------------------------------------- ANTEX
fn atx_round(cat: &antex::AntexCatalog, must: bool) -> Outcome {
    let mut b = vec![];
    if let Err(e) = guard(|| antex::write_antex(&mut b, cat).map_err(|e| e.to_string()))? {
        ensure!(!must, "encodable catalogue refused: {e}");
        return Ok(hstr(&e) | 1);
    }
    let f = guard(|| antex::read_antex(&b[..]).map_err(|e| e.to_string()))??;
    let show = || String::from_utf8_lossy(&b).into_owned();
    let names = |c: &antex::AntexCatalog| { let mut v: Vec<(String, Vec<String>)> = c.iter().map(|(k, m)| { let mut f: Vec<String> = m.keys().cloned().collect(); f.sort(); (k.clone(), f) }).collect(); v.sort(); v };
    ensure!(names(&f) == names(cat), "{:?} read back as {:?}\n{}", names(cat), names(&f), show());
    for (a, m) in cat {
        for (q, p) in m {
            let g = &f[a][q];
            for (x, y) in [(g.x(), p.x()), (g.y(), p.y()), (g.z(), p.z())] {
                ensure!(near(x.value(), y.value(), 0.01), "{a} {q}: {} read back as {}\n{}", y.value(), x.value(), show());
            }
        }
    }
    let mut b2 = vec![];
    antex::write_antex(&mut b2, &f).map_err(|e| e.to_string())?;
    ensure!(b2 == b, "written again the file differs");
    Ok(fnv(&b) | 1)
}
fn antex_all(ctx: &Ctx) {
    let mut l = Local::default();
    let one = |a: &str, q: &str, v: [f64; 3]| -> antex::AntexCatalog { HashMap::from([(a.to_string(), HashMap::from([(q.to_string(), antex::Pco::new(v[0], v[1], v[2])), ("G01".to_string(), antex::Pco::new(1.0, 2.0, 3.0))])), ("OTHER".to_string(), HashMap::new())]) };
    for i in 0..3 {
        for v in [0.0, -0.0, 0.005, -0.005, 0.004, 1.23, -99.99, 99.995, 9999.99, -9999.99, 99999.99, -99999.99, 999999.99, -999999.99, 999_999.996, -999_999.994, 1234567.89, -1234567.89, 9_999_999.99, 1e8, -1e12, f64::NAN, f64::INFINITY] {
            for w in [0.0, -123456.78, 1234567.89, -99.5] {
                l.case("antex-value", &format!("component {i} = {v:?} beside {w}"), || {
                    let mut x = [w; 3];
                    x[i] = v;
                    atx_round(&one("AOAD/M_T        NONE", "G02", x), v.abs() < 1e5 && w.abs() < 1e5)
                });
            }
        }
    }
    let long = "X".repeat(61);
    let sixty = "Y".repeat(60);
    for a in ["", "A", "AOAD/M_T        NONE", "BLOCK IIA           G01                 G032      1992-079A", &sixty, &long, "é", "ÉÉÉÉÉÉÉÉÉÉÉÉÉÉÉÉÉÉÉÉÉÉÉÉÉÉÉÉÉÉÉÉÉÉÉÉÉÉ", " A", "A ", "END OF ANTENNA", "START OF FREQUENCY", "a\nb", "a\tb", "G01"] {
        for q in ["G02", "G", "", " G02", "G 2", "E05 ", "ABCDEFGHIJ", "é", "g\n", "X2"] {
            l.case("antex-name", &format!("{a:?} {q:?}"), || atx_round(&one(a, q, [1.5, -2.5, 3.25]), ["A", "AOAD/M_T        NONE", "BLOCK IIA           G01                 G032      1992-079A", "G01"].contains(&a) && ["G02", "E05", "X2"].contains(&q)));
        }
    }
    for n in product(&[5, 5, 5]) {
        l.case("antex-shape", &format!("{n:?}"), || {
            let cat: antex::AntexCatalog = n.iter().enumerate().filter(|(_, &k)| k < 4).map(|(i, &k)| (format!("ANT{i}"), (0..k).map(|j| (format!("{}0{}", ["G", "R", "E", "C"][j], i + 1), antex::Pco::new(i as f64, j as f64 + 0.25, -1.5))).collect())).collect();
            atx_round(&cat, true)
        });
    }
    // block structure: only complete antennas with an open frequency count
    let kinds = [("", "START OF ANTENNA"), ("ANT1", "TYPE / SERIAL NO"), ("ANT2", "TYPE / SERIAL NO"), ("   G01", "START OF FREQUENCY"), ("   G02", "START OF FREQUENCY"), ("      1.00      2.00      3.00", "NORTH / EAST / UP"), ("      4.00      5.00      6.00", "NORTH / EAST / UP"), ("   G01", "END OF FREQUENCY"), ("", "END OF ANTENNA"), ("  0.0", "DAZI")];
    // a grammar-driven walk: well-nested files only
    for n in sequences(6, 4) {
        l.case("antex-blocks", &format!("{n:?}"), || {
            let line = |k: usize| format!("{:<60}{}\n", kinds[k].0, kinds[k].1);
            let (mut text, mut want) = (line(9), HashMap::<String, HashMap<String, [f64; 3]>>::new());
            for &k in &n {
                let (name, fr) = (k % 2, k / 2);
                text += &line(0);
                text += &line(1 + name);
                text += &line(9);
                let mut m = HashMap::new();
                for q in 0..fr {
                    text += &line(3 + q);
                    text += &line(5 + (q + name) % 2);
                    text += "   NOAZI    0.00    0.00\n";
                    text += &line(7);
                    m.insert(format!("G0{}", q + 1), if (q + name) % 2 == 0 { [1.0, 2.0, 3.0] } else { [4.0, 5.0, 6.0] });
                }
                text += &line(8);
                want.insert(format!("ANT{}", name + 1), m);
            }
            let f = guard(|| antex::read_antex(text.as_bytes()).map_err(|e| e.to_string()))??;
            let got: HashMap<String, HashMap<String, [f64; 3]>> = f.iter().map(|(a, m)| (a.clone(), m.iter().map(|(q, p)| (q.clone(), [p.x().value(), p.y().value(), p.z().value()])).collect())).collect();
            ensure!(got == want, "read {got:?}, file has {want:?}");
            Ok(hstr(&text) | 1)
        });
    }
    ctx.merge(l);
}

// ---------------------------------------------------------------- CPF
pub fn cpf_entry(t: Time<UTC>, v: [f64; 3]) -> cpf::CpfEphemerisEntry {
    cpf::CpfEphemerisEntry { epoch: t, position: affn::cartesian::Position::new(v[0], v[1], v[2]) }
}
fn cpf_round(f: &cpf::CpfFile, must: bool) -> Outcome {
    let mut b = vec![];
    if let Err(e) = guard(|| cpf::write_cpf(f, &mut b).map_err(|e| e.to_string()))? {
        ensure!(!must, "encodable file refused: {e}");
        return Ok(hstr(&e) | 1);
    }
    let text = String::from_utf8(b).map_err(|e| e.to_string())?;
    let mut h = 1;
    for mode in [ParseMode::Strict, ParseMode::Permissive] {
        let g = guard(|| cpf::parse_cpf_with_mode(&text, mode).map_err(|e| e.to_string()))?.map_err(|e| format!("own output refused: {e}\n{text}"))?;
        ensure!(g.ephemeris.entries.len() == f.ephemeris.entries.len(), "{} entries read back as {}\n{text}", f.ephemeris.entries.len(), g.ephemeris.entries.len());
        for (a, w) in g.ephemeris.iter().zip(f.ephemeris.iter()) {
            ensure!(same(a.epoch, w.epoch, 0.51e-3), "epoch {} s read back as {} s\n{text}", secs(w.epoch), secs(a.epoch));
            for (x, y) in [(a.position.x(), w.position.x()), (a.position.y(), w.position.y()), (a.position.z(), w.position.z())] {
                ensure!(near(x.value(), y.value(), 1e-6), "{} km read back as {} km", y.value(), x.value());
            }
        }
        ensure!((&g.source, &g.version, &g.cospar_id, g.sic, &g.norad, &g.reference_frame) == (&f.source, &f.version, &f.cospar_id, f.sic, &f.norad, &f.reference_frame), "header read back as {g:?}\n{text}");
        ensure!(g.time_step_s == f.time_step_s, "time step {} read back as {}\n{text}", f.time_step_s, g.time_step_s);
        h ^= hstr(&text);
    }
    Ok(h | 1)
}
pub fn cpf_file(e: Vec<cpf::CpfEphemerisEntry>) -> cpf::CpfFile {
    cpf::CpfFile { source: "DGF".into(), version: "2".into(), target_name: "lageos1".into(), cospar_id: "7603901".into(), sic: 1155, norad: "8820".into(), reference_frame: "0".into(), time_step_s: 300.0, ephemeris: cpf::CpfEphemeris { entries: e }, parse_mode: ParseMode::Strict }
}
fn cpf_all(ctx: &Ctx, t: bool) {
    let ins = instants(t);
    ctx.par(&ins, |l, (k, x)| {
        l.case("cpf-epoch", k, || cpf_round(&cpf_file(vec![cpf_entry(*x, [7000.0, -1.5, 0.25]), cpf_entry(*x, [1.0, 2.0, 3.0])]), true));
    });
    let mut l = Local::default();
    let t0 = utc(2024, 1, 1, 0, 0, 0, 0).unwrap();
    for i in 0..3 {
        for v in VALS {
            l.case("cpf-value", &format!("component {i} = {v:e}"), || {
                let mut x = [1.0, -2.0, 3.0];
                x[i] = v;
                cpf_round(&cpf_file(vec![cpf_entry(t0, x), cpf_entry(t0, [1.0; 3])]), true)
            });
        }
    }
    for s in [0.001, 0.5, 1.0, 1.5, 59.999, 60.0, 300.0, 900.0, 86400.0, 1e9] {
        l.case("cpf-step", &format!("{s}"), || { let mut f = cpf_file(vec![]); f.time_step_s = s; cpf_round(&f, true) });
    }
    for s in [-1, 0, 7, 1155, i32::MAX, i32::MIN] {
        l.case("cpf-sic", &format!("{s}"), || { let mut f = cpf_file(vec![]); f.sic = s; cpf_round(&f, true) });
    }
    for m in (41317..70000).step_by(if t { 1 } else { 7 }) {
        l.case("cpf-day", &format!("MJD {m}"), || {
            for (sod, s) in [("0.0", 0.0), ("43200.250000", 43200.25), ("86399.9990000", 86399.999)] {
                let g = cpf::parse_cpf(&format!("H1 CPF 2 A\n10 0 {m} {sod} 0 1000.0 2000.0 -3000.5\n20 0 1 2 3\n99\n10 0 60000 0 0 1 1 1\n")).map_err(|e| e.to_string())?;
                ensure!(g.ephemeris.entries.len() == 1, "{} entries", g.ephemeris.entries.len());
                let d = NaiveDate::from_ymd_opt(1858, 11, 17).unwrap() + chrono::Duration::days(m);
                let want = day_secs(d, s).ok_or("day")?;
                ensure!((secs(g.ephemeris[0].epoch) - secs(want)).abs() < TQ, "{m} {sod} read as {} s, not {} s", secs(g.ephemeris[0].epoch), secs(want));
                let p = &g.ephemeris[0].position;
                ensure!([p.x().value(), p.y().value(), p.z().value()] == [1.0, 2.0, -3.0005], "{p:?}");
            }
            Ok(1)
        });
    }
    for (m, s) in [("60000", "-1"), ("60000", "-0.5"), ("60000", "86400"), ("60000", "86400.5"), ("60000", "90000"), ("60000", "1e9"), ("60000", "NaN"), ("60000", "inf"), ("9223372036854775807", "0"), ("-9223372036854775808", "0"), ("99999999999", "0"), ("60000.5", "0"), ("x", "0"), ("60000", "x")] {
        l.case("cpf-bad-epoch", &format!("{m} {s}"), || match guard(|| cpf::parse_cpf(&format!("H1 CPF 2 A\n10 0 {m} {s} 0 1 2 3\n99\n")))? {
            Err(e) => Ok(hstr(&e.to_string()) | 1),
            Ok(g) => Err(format!("accepted as {:?}", g.ephemeris.entries)),
        });
    }
    let lines = ["10 0 60000 0.0 0 1 2 3", "10 1 60000 30.5 0 4 5 6", "20 0 9 9 9", "99", "H9 x", "", "10 0 60000 x 0 1 2 3", "10 0 60000 0 0 1 2", "  10 0 60001 0.0 0 7 8 9 "];
    for s in sequences(lines.len(), ctx.pick(4, 5)) {
        l.case("cpf-lines", &format!("{s:?}"), || {
            let text: String = s.iter().map(|&k| format!("{}\n", lines[k])).collect();
            let (mut want, mut bad) = (vec![], false);
            for &k in &s {
                match k { 0 => want.push(0.001), 1 => want.push(0.004), 8 => want.push(0.007), 3 => break, 6 | 7 => bad = true, _ => {} }
            }
            // a strict reader stops at the first malformed record
            for mode in [ParseMode::Strict, ParseMode::Permissive] {
                match guard(|| cpf::parse_cpf_with_mode(&text, mode))? {
                    Err(e) => ensure!(bad && mode == ParseMode::Strict, "refused: {e}"),
                    Ok(g) => {
                        ensure!(!bad || mode == ParseMode::Permissive, "malformed record accepted");
                        let x: Vec<f64> = g.ephemeris.iter().map(|e| e.position.x().value()).collect();
                        ensure!(x == want, "read {x:?}, file has {want:?}");
                    }
                }
            }
            Ok(hstr(&text) | 1)
        });
    }
    ctx.merge(l);
}

// ---------------------------------------------------------------- CRD
fn crd_all(ctx: &Ctx) {
    const C: f64 = 299_792_458.0;
    let lines = ["H1 CRD 2 2024 03 01 12", "H2 YARA 7090 5 13 4", "H3 lageos1 1155 8820 0 1", "H4 1 2024 02 29 01 02 03 2024 02 29 02 02 03 0 0 0 0 1 0 2 0", "H4 1 2016 12 31 00 00 00 2016 12 31 00 10 00 0 0 0 0 1 0 2 0", "C0 0 532.0 sys1", "C1 0 x", "11 43200.5 0.05 cfg9 2 1 3 4 17 100.0 0.1 -0.2 5.5", "11 86399.9999999 0.0501", "10 43200.5 0.05 cfg9 2 2", "20 43200 801.8 282.1 61", "H8", "H9", "", "11 43200.5", "11 x 0.05"];
    let first: Vec<usize> = (0..lines.len()).collect();
    ctx.par(&first, |l, &a| {
        for s in sequences(lines.len(), ctx.pick(3, 4)) {
            let v: Vec<usize> = std::iter::once(a).chain(s).collect();
            l.case("crd-lines", &format!("{v:?}"), || {
                let text: String = v.iter().map(|&k| format!("{}\n", lines[k])).collect();
                let (mut st, mut tg, mut ver, mut date, mut np, mut sys, mut bad): (String, String, &str, Option<(i32, u32, u32)>, Vec<(f64, f64, Option<f64>, String)>, String, bool) = (String::new(), String::new(), "", None, vec![], "532.0".into(), false);
                let mut seen_c0 = false;
                for &k in &v {
                    match k {
                        0 => ver = "2",
                        1 => st = "YARA 7090 5 13 4".into(),
                        2 => tg = "lageos1 1155 8820 0 1".into(),
                        3 => date = Some((2024, 2, 29)),
                        4 => date = Some((2016, 12, 31)),
                        5 => { sys = "532.0".into(); seen_c0 = true }
                        7 | 8 => {
                            let (sod, tof) = if k == 7 { (43200.5, 0.05) } else { (86399.9999999, 0.0501) };
                            let ep = date.map(|(y, m, d)| secs(day_secs(NaiveDate::from_ymd_opt(y, m, d).unwrap(), sod).unwrap()));
                            np.push((sod, tof, ep, if k == 7 { "cfg9".into() } else if seen_c0 { sys.clone() } else { "?".into() }));
                        }
                        14 | 15 => bad = true,
                        _ => {}
                    }
                }
                for mode in [ParseMode::Strict, ParseMode::Permissive] {
                    match guard(|| crd::parse_crd_with_mode(&text, mode))? {
                        Err(e) => ensure!(bad && mode == ParseMode::Strict, "refused: {e}"),
                        Ok(g) => {
                            ensure!(!bad || mode == ParseMode::Permissive, "malformed record accepted");
                            ensure!(g.format_version == ver, "version {}", g.format_version);
                            let s = &g.station;
                            ensure!(st.is_empty() && s.name.is_empty() || st == format!("{} {} {} {} {}", s.name, s.cdp_pad, s.sys_no, s.occ_no, s.time_zone), "station {s:?}");
                            ensure!(g.station_name == s.name && g.station_cdp_pad == s.cdp_pad, "station copies");
                            let t = &g.target;
                            ensure!(tg.is_empty() && t.name.is_empty() || tg == format!("{} {} {} {} {}", t.name, t.sic, t.norad, t.sc_flag, t.epoch_id), "target {t:?}");
                            ensure!(g.satellite_name == t.name && g.satellite_sic == t.sic && g.satellite_norad == t.norad, "target copies");
                            let sd = g.session_date.map(secs);
                            ensure!(sd == date.map(|(y, m, d)| secs(utc(y, m, d, 0, 0, 0, 0).unwrap())), "session date {sd:?}");
                            ensure!(g.normal_points.len() == np.len(), "{} normal points, file has {}", g.normal_points.len(), np.len());
                            for (p, w) in g.normal_points.iter().zip(&np) {
                                ensure!(p.seconds_of_day.value() == w.0 && p.time_of_flight.value() == w.1, "{p:?}");
                                ensure!(close(p.range_m.value(), w.1 * C / 2.0, 1e-6), "range {}", p.range_m.value());
                                ensure!(match (p.epoch.map(secs), w.2) { (Some(a), Some(b)) => (a - b).abs() <= TQ, (None, None) => true, _ => false }, "epoch {:?} for {w:?}", p.epoch.map(secs));
                                if w.3 == "cfg9" {
                                    ensure!((p.system_config_id.as_str(), p.epoch_event, p.filter_flag, p.data_quality, p.format_flag, p.num_raws) == ("cfg9", 2, 1, 3, 4, Some(17)), "{p:?}");
                                    ensure!(close(p.bin_rms_m.unwrap().value(), 100e-12 * C / 2.0, 1e-15) && p.return_rate == Some(5.5), "{p:?}");
                                } else if w.3 != "?" {
                                    ensure!(p.system_config_id == w.3, "system {} for {}", p.system_config_id, w.3);
                                }
                            }
                        }
                    }
                }
                Ok(hstr(&text) | 1)
            });
        }
    });
    let mut l = Local::default();
    for (k, x) in instants(false) {
        // the seconds of day name the instant on the session day
        let Ok(dt) = x.try_to_chrono() else { continue };
        use chrono::{Datelike, Timelike};
        let sod = dt.num_seconds_from_midnight() as f64 + dt.nanosecond() as f64 * 1e-9;
        l.case("crd-epoch", &k, || {
            let g = guard(|| crd::parse_crd(&format!("H1 CRD 2\nH4 1 {} {} {} 0 0 0\n11 {sod:.12} 0.05\n", dt.year(), dt.month(), dt.day())).map_err(|e| e.to_string()))??;
            let p = g.normal_points[0].epoch.ok_or("no epoch")?;
            ensure!(same(p, x, 1e-9), "{sod:.12} read as {} s, not {} s", secs(p), secs(x));
            Ok(hf(&[sod]) | 1)
        });
    }
    for s in ["-1", "-0.5", "86400", "86401", "1e9", "1e300", "NaN", "inf"] {
        l.case("crd-bad-epoch", s, || {
            let g = guard(|| crd::parse_crd(&format!("H4 1 2024 01 01\n11 {s} 0.05\n")))?;
            match g {
                Err(e) => Ok(hstr(&e.to_string()) | 1),
                Ok(g) => {
                    ensure!(g.normal_points.iter().all(|p| p.epoch.is_none()), "{s} seconds of day read as an instant of that day: {:?}", g.normal_points[0].epoch);
                    Ok(1)
                }
            }
        });
    }
    ctx.merge(l);
}

// ---------------------------------------------------------------- RINEX navigation
fn nav_fields(r: &nav::GpsNavRecord) -> [f64; 20] {
    [r.af0.value(), r.af1, r.af2, r.iode, r.crs.value(), r.delta_n.value(), r.m0.value(), r.cuc.value(), r.e, r.cus.value(), r.sqrt_a, r.toe.value(), r.cic.value(), r.omega0.value(), r.cis.value(), r.i0.value(), r.crc.value(), r.omega.value(), r.omega_dot.value(), r.idot.value()]
}
pub fn nav_rec(prn: u8, toc: Time<UTC>, v: [f64; 20]) -> nav::GpsNavRecord {
    use qtty::angular_rate::AngularRate as R;
    use qtty::{angular::Radians as A, length::Meters as M, time::Seconds as S};
    nav::GpsNavRecord { prn, toc, af0: S::new(v[0]), af1: v[1], af2: v[2], iode: v[3], crs: M::new(v[4]), delta_n: R::new(v[5]), m0: A::new(v[6]), cuc: A::new(v[7]), e: v[8], cus: A::new(v[9]), sqrt_a: v[10], toe: S::new(v[11]), cic: A::new(v[12]), omega0: A::new(v[13]), cis: A::new(v[14]), i0: A::new(v[15]), crc: M::new(v[16]), omega: A::new(v[17]), omega_dot: R::new(v[18]), idot: R::new(v[19]) }
}
pub const NAV0: [f64; 20] = [-4.697147756815e-4, -1.0e-11, 0.0, 61.0, -37.15625, 4.1e-9, 1.5, -1.9e-6, 0.0123, 8.3e-6, 5153.7, 432000.0, 1.1e-7, -2.9, -2.0e-8, 0.97, 222.5, 0.9, -8.1e-9, 2.1e-10];
fn nav_round(recs: &[nav::GpsNavRecord], must: bool) -> Outcome {
    let mut b = vec![];
    let file = nav::RinexNavFile { gps: recs.to_vec() };
    if let Err(e) = guard(|| nav::write_rinex_nav(&mut b, &file).map_err(|e| e.to_string()))? {
        ensure!(!must, "encodable record refused: {e}");
        return Ok(hstr(&e) | 1);
    }
    let text = String::from_utf8(b).map_err(|e| e.to_string())?;
    for mode in [ParseMode::Strict, ParseMode::Permissive] {
        let f = guard(|| nav::parse_rinex_nav_with_mode(&text, mode).map_err(|e| e.to_string()))?.map_err(|e| format!("own output refused: {e}\n{text}"))?;
        ensure!(f.gps.len() == recs.len(), "{} records read back as {}\n{text}", recs.len(), f.gps.len());
        for (g, w) in f.gps.iter().zip(recs) {
            ensure!(g.prn == w.prn, "PRN {} read back as {}", w.prn, g.prn);
            ensure!(same(g.toc, w.toc, 0.5001), "clock epoch {} s read back as {} s\n{text}", secs(w.toc), secs(g.toc));
            for (i, (x, y)) in nav_fields(g).iter().zip(nav_fields(w)).enumerate() {
                ensure!((x - y).abs() <= y.abs() * 0.51e-12 || (x - y).abs() < 1e-98, "field {i}: {y:e} read back as {x:e}\n{text}");
            }
        }
    }
    Ok(hstr(&text) | 1)
}
fn nav_all(ctx: &Ctx, t: bool) {
    let ins = instants(t);
    ctx.par(&ins, |l, (k, x)| {
        l.case("nav-epoch", k, || nav_round(&[nav_rec(1, *x, NAV0)], true));
    });
    let vals = [0.0, -0.0, 1.0, -1.0, 9.9999999999994, -9.9999999999996, 1e-9, -1e-9, 1e-10, -1e-10, 1.23456789012345e-12, -1.23456789012345e-12, 9.99e99, -9.99e98, 1e-99, -1.5e-99, 1e-100, -1e-100, 1e-300, 1e99, 1e100, -1e100, 1e300, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 604800.0, -26559710.123];
    let idx: Vec<usize> = (0..20).collect();
    ctx.par(&idx, |l, &i| {
        for v in vals {
            for neg in [1.0f64, -1.0, -1e-12, 1e-12] {
                l.case("nav-value", &format!("field {i} = {v:e} among {neg:e}"), || {
                    let mut x = NAV0.map(|q| if neg.abs() == 1.0 { q * neg } else { neg });
                    x[i] = v;
                    nav_round(&[nav_rec(7, utc(2024, 1, 1, 2, 0, 0, 0).unwrap(), x), nav_rec(8, utc(2024, 1, 1, 4, 0, 0, 0).unwrap(), NAV0)], v.is_finite() && v.abs() < 1e98)
                });
            }
        }
    });
    let mut l = Local::default();
    for p in 0..=255u8 {
        l.case("nav-prn", &format!("{p}"), || nav_round(&[nav_rec(p, utc(2024, 1, 1, 2, 0, 0, 0).unwrap(), NAV0)], (1..=32).contains(&p)));
    }
    for s in sequences(3, 4) {
        l.case("nav-order", &format!("{s:?}"), || nav_round(&s.iter().map(|&k| nav_rec([5, 1, 32][k], utc(2024, 1, 3 - k as u32, 2, 0, 0, 0).unwrap(), NAV0.map(|x| x * (k as f64 + 1.0)))).collect::<Vec<_>>(), true));
    }
    // blocks of several systems, faults in one of them
    let good = |prn: &str, m0: &str| -> Vec<String> {
        let mut v = vec![format!("{prn} 2024 01 01 02 00 00-4.697147756815D-04-1.000000000000D-11 0.000000000000D+00")];
        v.push(format!("     6.100000000000D+01-3.715625000000D+01 4.100000000000D-09{m0}"));
        for _ in 0..6 { v.push("     1.000000000000D+00-2.000000000000D-01 3.000000000000D-02-4.000000000000D-03".into()) }
        v
    };
    let blocks = |k: usize| -> (Vec<String>, u8) {
        // (lines, 0 fine GPS, 1 not GPS, 2 malformed)
        match k {
            0 => (good("G03", "-1.500000000000D+00"), 0),
            1 => (good("G04", " 2.500000000000D+00"), 0),
            2 => (good("R05", " 1.5D+00")[..4].to_vec(), 1),
            3 => (good("E06", " 1.5D+00"), 1),
            4 => (good("G0x", " 1.5D+00"), 2),
            5 => { let mut v = good("G07", " 1.5D+00"); v[3] = "     1.000000000000D+00-2.000000000000D-01 3.000000000000D-02".into(); (v, 2) }
            6 => { let mut v = good("G08", " 1.5D+00"); v[0] = v[0].replace("01 01", "13 01"); (v, 2) }
            _ => { let mut v = good("G09", " 1.5D+00"); v[2] = v[2].replace("1.0", "1.x"); (v, 2) }
        }
    };
    for s in sequences(8, ctx.pick(4, 5)) {
        l.case("nav-blocks", &format!("{s:?}"), || {
            let mut text = String::from("     3.04           N: GNSS NAV DATA    M                   RINEX VERSION / TYPE\n                                                            END OF HEADER\n");
            let (mut want, mut bad) = (vec![], false);
            for &k in &s {
                let (ls, f) = blocks(k);
                for x in ls { text += &x; text.push('\n'); }
                if f == 0 { want.push(if k == 0 { (3u8, -1.5) } else { (4, 2.5) }) }
                bad |= f == 2;
            }
            let headless = text.replace("END OF HEADER", "end of header");
            ensure!(guard(|| nav::parse_rinex_nav_with_mode(&headless, ParseMode::Strict))?.is_err(), "a file without a header end is accepted");
            for mode in [ParseMode::Strict, ParseMode::Permissive] {
                match guard(|| nav::parse_rinex_nav_with_mode(&text, mode))? {
                    Err(e) => ensure!(bad && mode == ParseMode::Strict, "refused: {e}\n{text}"),
                    Ok(f) => {
                        ensure!(!bad || mode == ParseMode::Permissive, "malformed record accepted");
                        let got: Vec<(u8, f64)> = f.gps.iter().map(|r| (r.prn, r.m0.value())).collect();
                        ensure!(got == want, "read {got:?}, file has {want:?}\n{text}");
                        for r in &f.gps {
                            let v = nav_fields(r);
                            ensure!(v[..6] == [-4.697147756815e-4, -1e-11, 0.0, 61.0, -37.15625, 4.1e-9] && v[7..11] == [1.0, -0.2, 0.03, -0.004], "{v:?}");
                        }
                    }
                }
            }
            Ok(hstr(&text) | 1)
        });
    }
    ctx.merge(l);
}

// ---------------------------------------------------------------- RINEX observation
fn obs_round(o: &obs::RinexObs, must: bool) -> Outcome {
    let mut b = vec![];
    if let Err(e) = guard(|| obs::write_rinex_obs(&mut b, o).map_err(|e| e.to_string()))? {
        ensure!(!must, "encodable file refused: {e}");
        return Ok(hstr(&e) | 1);
    }
    let show = || String::from_utf8_lossy(&b).into_owned();
    let f = guard(|| obs::read_rinex_obs(&b[..]).map_err(|e| e.to_string()))?.map_err(|e| format!("own output refused: {e}\n{}", show()))?;
    ensure!(f.marker == o.marker, "marker {:?} read back as {:?}", o.marker, f.marker);
    match (&f.approx_xyz_m, &o.approx_xyz_m) {
        (None, None) => {}
        (Some(a), Some(b)) => for i in 0..3 { ensure!(near(a[i].value(), b[i].value(), 1e-4), "position {} read back as {}", b[i].value(), a[i].value()) },
        x => return Err(format!("position {x:?}\n{}", show())),
    }
    match (f.interval_s, o.interval_s) {
        (None, None) => {}
        (Some(a), Some(b)) => ensure!(near(a.value(), b.value(), 1e-3), "interval {} read back as {}", b.value(), a.value()),
        x => return Err(format!("interval {x:?}")),
    }
    ensure!(f.obs_types == o.obs_types, "types {:?} read back as {:?}\n{}", o.obs_types, f.obs_types, show());
    ensure!(f.epochs.len() == o.epochs.len(), "{} epochs read back as {}\n{}", o.epochs.len(), f.epochs.len(), show());
    for (g, w) in f.epochs.iter().zip(&o.epochs) {
        ensure!(same(g.time, w.time, 0.51e-7), "epoch {} s read back as {} s\n{}", secs(w.time), secs(g.time), show());
        let keys = |m: &HashMap<String, HashMap<String, f64>>| { let mut v: Vec<String> = m.iter().flat_map(|(s, x)| x.keys().map(move |k| format!("{s}/{k}")).chain([s.clone()])).collect(); v.sort(); v };
        ensure!(keys(&g.satellites) == keys(&w.satellites), "{:?} read back as {:?}\n{}", keys(&w.satellites), keys(&g.satellites), show());
        for (s, m) in &w.satellites {
            for (k, v) in m {
                ensure!(near(g.satellites[s][k], *v, 1e-3), "{s}/{k} {v} read back as {}\n{}", g.satellites[s][k], show());
            }
        }
    }
    Ok(fnv(&b) | 1)
}
pub fn obs_file(types: &[(char, usize)], eps: Vec<obs::ObsEpoch>) -> obs::RinexObs {
    obs::RinexObs { marker: "TEST".into(), approx_xyz_m: None, interval_s: None, obs_types: types.iter().map(|&(c, n)| (c, (0..n).map(ty).collect())).collect(), epochs: eps }
}
pub fn ty(i: usize) -> String {
    format!("{}{}{}", ["C", "L", "D", "S"][i / 12 % 4], i / 3 % 9 + 1, ["C", "W", "X"][i % 3])
}
pub fn epoch(t: Time<UTC>, s: &[(&str, Vec<(usize, f64)>)]) -> obs::ObsEpoch {
    obs::ObsEpoch { time: t, satellites: s.iter().map(|(n, v)| (n.to_string(), v.iter().map(|&(k, x)| (ty(k), x)).collect())).collect() }
}
fn obs_all(ctx: &Ctx, t: bool) {
    let ins = instants(t);
    ctx.par(&ins, |l, (k, x)| {
        l.case("obs-epoch", k, || obs_round(&obs_file(&[('G', 2)], vec![epoch(*x, &[("G01", vec![(0, 20123456.789), (1, -1.5)])])]), true));
    });
    let mut l = Local::default();
    let t0 = utc(2024, 1, 1, 0, 0, 0, 0).unwrap();
    for n in 0..=40 {
        for m in [0, 1, 13, 14, 27] {
            l.case("obs-types", &format!("{n} and {m}"), || {
                let sat = |k: usize| (0..k).map(|i| (i, 1000.0 * i as f64 + 0.25)).collect::<Vec<_>>();
                obs_round(&obs_file(&[('G', n), ('E', m)], vec![epoch(t0, &[("G01", sat(n)), ("E02", sat(m))]), epoch(t0, &[("G32", sat(n / 2)), ("E36", vec![])])]), true)
            });
        }
    }
    for k in 0..64usize {
        for j in [0usize, 1, 32, 33, 63] {
            l.case("obs-missing", &format!("{k:06b} {j:06b}"), || {
                let sat = |k: usize| (0..6).filter(|i| k >> i & 1 == 1).map(|i| (i, -(i as f64) - 0.5)).collect::<Vec<_>>();
                obs_round(&obs_file(&[('G', 6)], vec![epoch(t0, &[("G01", sat(k)), ("G02", sat(j))])]), true)
            });
        }
    }
    for v in VALS.into_iter().chain([999_999_999.999, -99_999_999.999, 9_999_999_999.9, 1e9, -999_999_999.999]) {
        for p in 0..3 {
            l.case("obs-value", &format!("type {p} = {v:?}"), || {
                let mut x = vec![(0, 1.0), (1, 2.0), (2, 3.0)];
                x[p].1 = v;
                obs_round(&obs_file(&[('G', 3)], vec![epoch(t0, &[("G01", x), ("G02", vec![(1, 7.0)])])]), v.abs() < 999_999_999.0)
            });
            l.case("obs-position", &format!("component {p} = {v:?}"), || {
                let mut o = obs_file(&[('G', 1)], vec![epoch(t0, &[])]);
                let mut x = [1.0, -2.0, 3.0];
                x[p] = v;
                o.approx_xyz_m = Some(x.map(qtty::length::Meters::new));
                obs_round(&o, v.abs() < 1e7)
            });
        }
    }
    for iv in [0.001, 0.05, 1.0, 15.0, 30.0, 86400.0, 999999.999, 0.1234] {
        l.case("obs-interval", &format!("{iv}"), || { let mut o = obs_file(&[('G', 1)], vec![]); o.interval_s = Some(qtty::time::Seconds::new(iv)); obs_round(&o, true) });
    }
    for m in ["", "A", "TEST MARK", &"M".repeat(60), &"M".repeat(61), "Ñandú", &"É".repeat(31), "a\nb", " A", "END OF HEADER"] {
        l.case("obs-marker", &format!("{m:?}"), || { let mut o = obs_file(&[('G', 1)], vec![epoch(t0, &[("G01", vec![(0, 1.0)])])]); o.marker = m.into(); obs_round(&o, ["", "A", "TEST MARK"].contains(&m)) });
    }
    for s in ["G01", "G1", "G001", "", "R24", "é1", "g01", "G\n1", "G 1", "> 1", "X01"] {
        l.case("obs-satellite", &format!("{s:?}"), || obs_round(&obs_file(&[('G', 1), ('R', 1)], vec![epoch(t0, &[(s, vec![(0, 1.0)]), ("G09", vec![(0, 2.0)])]), epoch(t0, &[("G09", vec![(0, 3.0)])])]), ["G01", "R24"].contains(&s)));
    }
    for (c, tys) in [('G', vec!["C1C"]), ('G', vec!["C1CX"]), ('G', vec![""]), ('G', vec!["C 1"]), ('G', vec!["C1", "L1"]), ('1', vec!["C1C"]), ('é', vec!["C1C"]), (' ', vec!["C1C"]), ('G', vec!["é1C"])] {
        l.case("obs-type-code", &format!("{c:?} {tys:?}"), || {
            let mut o = obs_file(&[], vec![]);
            o.obs_types.insert(c, tys.iter().map(|s| s.to_string()).collect());
            obs_round(&o, c == 'G' && tys == ["C1C"])
        });
    }
    for n in product(&[5, 5, 5]) {
        l.case("obs-shape", &format!("{n:?}"), || {
            let eps = n.iter().enumerate().filter(|(_, &k)| k < 4).map(|(i, &k)| epoch(utc(2024, 1, 3 - i as u32, 0, 0, 30, 0).unwrap(), &[("G01", vec![(0, i as f64)]), ("E01", vec![(1, 2.5)]), ("G02", vec![])][..k.min(3)])).collect();
            obs_round(&obs_file(&[('G', 2), ('E', 2)], eps), true)
        });
    }
    // many satellites
    for n in [9, 10, 64, 99, 100, 140] {
        l.case("obs-many", &format!("{n} satellites"), || {
            let names: Vec<String> = (0..n).map(|i| format!("{}{:02}", ["G", "E"][i / 99], i % 99 + 1)).collect();
            let s: Vec<(&str, Vec<(usize, f64)>)> = names.iter().enumerate().map(|(i, x)| (x.as_str(), vec![(0, i as f64)])).collect();
            obs_round(&obs_file(&[('G', 1), ('E', 1)], vec![epoch(t0, &s), epoch(t0, &s[..1])]), true)
        });
    }
    // reading: records between the epochs
    let head = format!("{:<60}{}\n{:<60}{}\n{:<60}{}\n", "     3.04           OBSERVATION DATA    M", "RINEX VERSION / TYPE", "G    2 C1C L1C", "SYS / # / OBS TYPES", "", "END OF HEADER");
    let blocks = ["> 2024 01 01 00 00  0.0000000  0  1\nG01  20123456.789   123456789.012 7\n", "> 2024 01 01 00 00 30.0000000  0  2\nG02                -123456789.012\nG03  20123456.789\n", "> 2024 01 01 00 01  0.0000000  0  0\n", "> 2024 01 01 00 01 30.0000000  4  2\nCOMMENT A                                                   COMMENT\nG    1 C1C                                                  COMMENT\n", "> 2024 01 01 00 02  0.0000000  1  1\nG04         1.000         2.000\n", "\n", "> 2024 01 01 00 02 30.0000000  6  1\nG05         1.000\n"];
    for s in sequences(blocks.len(), ctx.pick(5, 6)) {
        l.case("obs-blocks", &format!("{s:?}"), || {
            let text: String = std::iter::once(head.as_str()).chain(s.iter().map(|&k| blocks[k])).collect();
            let mut want: Vec<(f64, Vec<(&str, Option<f64>, Option<f64>)>)> = vec![];
            for &k in &s {
                match k {
                    0 => want.push((0.0, vec![("G01", Some(20123456.789), Some(123456789.012))])),
                    1 => want.push((30.0, vec![("G02", None, Some(-123456789.012)), ("G03", Some(20123456.789), None)])),
                    2 => want.push((60.0, vec![])),
                    4 => want.push((120.0, vec![("G04", Some(1.0), Some(2.0))])),
                    _ => {}
                }
            }
            let f = guard(|| obs::read_rinex_obs(text.as_bytes()).map_err(|e| e.to_string()))??;
            let got: Vec<(f64, Vec<(&str, Option<f64>, Option<f64>)>)> = f.epochs.iter().map(|e| { let mut v: Vec<_> = e.satellites.iter().map(|(s, m)| (s.as_str(), m.get("C1C").copied(), m.get("L1C").copied())).collect(); v.sort_by(|a, b| a.0.cmp(b.0)); (((secs(e.time) - secs(t0)) * 1e3).round() / 1e3, v) }).collect();
            ensure!(got == want, "read {got:?}, file has {want:?}");
            Ok(hstr(&text) | 1)
        });
    }
    // every field of an epoch line and every count made unreadable: refused, not read as zero
    let good = ["2024", "01", "01", "02", "03", "4.5000000", "0", "1"];
    for (i, junk) in product(&[8, 4]).into_iter().map(|p| (p[0], ["x", "1x", "--", "*"][p[1]])) {
        for sat in [false, true] {
            l.case("obs-unreadable", &format!("{i} {junk} {sat}"), || {
                let mut f = good.to_vec();
                f[i] = junk;
                let tail = if sat { "G01  20123456.789\n" } else { "" };
                let text = format!("{head}> {}\n{tail}", f.join(" "));
                let r = guard(|| obs::read_rinex_obs(text.as_bytes()).map_err(|e| e.to_string()))?;
                // the event flag is the one field whose content is not needed
                ensure!(i == 6 || r.is_err(), "read as {:?}\n{text}", r.map(|f| f.epochs));
                Ok(hstr(&text) | 1)
            });
        }
    }
    for count in ["    x", "  1.5", "     ", "   -1"] {
        l.case("obs-unreadable", &format!("count {count}"), || {
            let text = head.replacen("G    2", &format!("G{count}"), 1);
            ensure!(text != head, "header of this test has no count");
            let r = guard(|| obs::read_rinex_obs(text.as_bytes()).map_err(|e| e.to_string()))?;
            ensure!(r.is_err(), "read as {:?}", r.map(|f| f.obs_types));
            Ok(hstr(&text) | 1)
        });
    }
    ctx.merge(l);
}

// ---------------------------------------------------------------- DORIS, SCK
fn doris_all(ctx: &Ctx) {
    let mut l = Local::default();
    let lines = ["> 2024 02 29 03 04 05.500", "> 1999 12 31 23 59 59.999", "D01 12345.678 678.9", "D02  1.0", "D03", "   99.0  98.0", ""];
    for s in sequences(lines.len(), ctx.pick(5, 6)) {
        l.case("doris-lines", &format!("{s:?}"), || {
            let head = format!("{:<60}{}\n{:<60}{}\n{:<60}{}\n", "     3.00           O                   D", "RINEX VERSION / TYPE", "TLSB", "MARKER NAME", "", "END OF HEADER");
            let text: String = std::iter::once(head.as_str()).chain(s.iter().flat_map(|&k| [lines[k], "\n"])).collect();
            let (mut ep, mut want) = (None, vec![]);
            for &k in &s {
                match k {
                    0 => ep = Some(mjd(2024, 2, 29) as f64 + (3.0 * 3600.0 + 4.0 * 60.0 + 5.5) / 86400.0),
                    1 => ep = Some(mjd(1999, 12, 31) as f64 + 86399.999 / 86400.0),
                    2..=4 => if let Some(e) = ep { want.push((e, &lines[k][..3], lines[k][3..].trim())) },
                    _ => {}
                }
            }
            let f = guard(|| doris::read_rinex_doris(text.as_bytes()).map_err(|e| e.to_string()))??;
            ensure!(f.header.version == "3.00" && f.header.marker_name == "TLSB", "{:?}", f.header);
            ensure!(f.observations.len() == want.len(), "{} observations, file has {}", f.observations.len(), want.len());
            for (g, w) in f.observations.iter().zip(&want) {
                ensure!((g.epoch_mjd - w.0).abs() < 1e-8 && g.satellite_id == w.1 && g.raw_measurements == w.2, "{g:?} for {w:?}");
            }
            Ok(hstr(&text) | 1)
        });
    }
    for (y, m, d) in [(1992, 1, 1), (1999, 12, 31), (2000, 1, 1), (2000, 2, 29), (2000, 3, 1), (2024, 12, 31), (2025, 1, 1)] {
        for (h, mi) in [(0, 0), (12, 0), (23, 59)] {
            l.case("doris-epoch", &format!("{y} {m} {d} {h}:{mi}"), || {
                let f = doris::read_rinex_doris(format!("{:<60}END OF HEADER\n> {y} {m:02} {d:02} {h:02} {mi:02} 30.25\nD01 1\n", "").as_bytes()).map_err(|e| e.to_string())?;
                let want = mjd(y, m, d) as f64 + (h * 3600 + mi * 60) as f64 / 86400.0 + 30.25 / 86400.0;
                ensure!((f.observations[0].epoch_mjd - want).abs() < 1e-8, "MJD {}, not {want}", f.observations[0].epoch_mjd);
                Ok(1)
            });
        }
    }
    // binary Chebyshev archive: header geometry against payload length
    for n in product(&[4, 4, 6, 3]) {
        l.case("sck-layout", &format!("{n:?}"), || {
            let (nc, nr, len, tail) = (n[0] as u32, n[1] as u32, n[2], n[3]);
            let words = ((2 + 3 * nc) * nr) as usize;
            let have = (words + len).saturating_sub(2);
            let mut b = b"SCKERN01".to_vec();
            for x in [nc, nr, 10, 399, 1, 2] { b.extend(x.to_le_bytes()) }
            for x in [2451545.0f64, 2451555.5] { b.extend(x.to_le_bytes()) }
            b.resize(64, 0);
            for i in 0..have { b.extend((i as f64 * 0.5 - 3.0).to_le_bytes()) }
            b.extend(vec![7u8; tail]);
            let r = guard(|| sck::parse_sck(&b))?;
            let fits = have == words && tail == 0;
            match r {
                Ok(k) => {
                    ensure!(fits, "{} payload bytes accepted for {words} words", b.len() - 64);
                    ensure!(k.records == (0..words).map(|i| i as f64 * 0.5 - 3.0).collect::<Vec<_>>() && k.record_stride() == 2 + 3 * nc as usize, "payload");
                    ensure!((k.header.ncoeff, k.header.record_count, k.header.center_id, k.header.target_id, k.header.frame_id, k.header.time_scale_id, k.header.valid_from_jd, k.header.valid_to_jd) == (nc, nr, 10, 399, 1, 2, 2451545.0, 2451555.5), "{:?}", k.header);
                }
                Err(e) => ensure!(!fits, "refused: {e}"),
            }
            Ok(fnv(&b) | 1)
        });
    }
    ctx.merge(l);
}

pub fn run(tier: Tier) -> Ctx {
    let mut ctx = Ctx::new("C14", "exploration", tier,
        "every sequence up to the bound of line or block kinds (valid, malformed, foreign, blank, end) of SP3, ORBEX, CPF, CRD, RINEX navigation/observation/DORIS and well-nested ANTEX, each against an independent reading of the lines, SP3 also stream against batch in whole and single-byte reads with both line ends; every order of SINEX estimate rows of one station and weaves of several; round trips of every writer (SP3, ANTEX, CPF, RINEX NAV and OBS) over every instant of a lattice of calendar edges, sub-second rounding edges and leap seconds, every boundary value in every field, every name and record shape of a list. Non-trivial: a file was read and compared, or a fault or unencodable record was refused.");
    ctx.assumptions = vec!["printed precision is the writer's decimals plus the time library's resolution (2.5e-7 s); a writer may refuse what its columns cannot hold but not ordinary values; records of navigation systems other than GPS are skipped".into()];
    let t = tier == Tier::Thorough;
    sp3_all(&ctx, t);
    sinex_all(&ctx, t);
    orbex_all(&ctx);
    antex_all(&ctx);
    cpf_all(&ctx, t);
    crd_all(&ctx);
    nav_all(&ctx, t);
    obs_all(&ctx, t);
    doris_all(&ctx);
    ctx
}
