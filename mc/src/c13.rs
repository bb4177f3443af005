//! C13: CCSDS OEM, OPM and TDM messages: round trips, section orders and faulty lines.
use crate::core::*;
use siderust::formats::ccsds::oem::*;
use siderust::formats::ccsds::opm::*;
use siderust::formats::ccsds::tdm::*;
use siderust::formats::ccsds::FormatError;

const DAY: f64 = 86_400.0;

fn civil(y: i64, m: i64, d: i64) -> i64 {
    let y2 = if m <= 2 { y - 1 } else { y };
    let era = y2.div_euclid(400);
    let yoe = y2 - era * 400;
    let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
    era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468
}
fn jd0(y: i64, m: i64, d: i64) -> f64 {
    civil(y, m, d) as f64 + 2_440_587.5
}
/// independent reading of a calendar stamp: (day number, seconds of day), None if not a calendar date
fn stamp(s: &str) -> Option<(i64, f64)> {
    let b = s.as_bytes();
    if b.len() < 19 || b[4] != b'-' || b[7] != b'-' || b[10] != b'T' || b[13] != b':' || b[16] != b':' {
        return None;
    }
    let n = |r: std::ops::Range<usize>| s[r].parse::<i64>().ok();
    let (y, mo, d, h, mi) = (n(0..4)?, n(5..7)?, n(8..10)?, n(11..13)?, n(14..16)?);
    let sec: f64 = s[17..].parse().ok()?;
    let next = if mo == 12 { civil(y + 1, 1, 1) } else { civil(y, mo + 1, 1) };
    if !(1..=12).contains(&mo) || d < 1 || civil(y, mo, d) >= next || h > 23 || mi > 59 || !(0.0..60.0).contains(&sec) {
        return None;
    }
    Some((civil(y, mo, d), h as f64 * 3600.0 + mi as f64 * 60.0 + sec))
}
fn tokens_after<'a>(text: &'a str, pre: &str, post: char) -> Vec<&'a str> {
    text.match_indices(pre).map(|(i, _)| { let r = &text[i + pre.len()..]; r[..r.find(post).unwrap_or(r.len())].trim() }).collect()
}
fn meta(name: &str, id: &str, center: &str, frame: &str, ts: &str) -> OemMetadata {
    OemMetadata { object_id: id.into(), object_name: name.into(), ref_frame: frame.into(), time_system: ts.into(), center_name: center.into() }
}
pub fn meta0() -> OemMetadata {
    meta("SAT", "2020-001A", "EARTH", "EME2000", "UTC")
}
fn mkey(m: &OemMetadata) -> [String; 5] {
    [m.object_name.clone(), m.object_id.clone(), m.center_name.clone(), m.ref_frame.clone(), m.time_system.clone()]
}
fn plain(s: &str) -> bool {
    !s.chars().any(char::is_control) && s.trim() == s
}
fn val_ok(got: f64, want: f64, q: f64) -> bool {
    (got - want).abs() <= q * 0.5001 + want.abs() * 4e-16
}
fn check_oem(m: &OemMetadata, st: &[OemState]) -> Outcome {
    let mut k = vec![];
    let mut x = vec![];
    let (rk, rx) = (guard(|| write_oem(&mut k, m, st).map_err(|e| e.to_string()))?, guard(|| write_oem_xml(&mut x, m, st).map_err(|e| e.to_string()))?);
    let good = !st.is_empty() && mkey(m).iter().all(|s| plain(s))
        && st.iter().all(|s| s.epoch_jd >= jd0(1, 1, 1) && s.epoch_jd <= jd0(9999, 12, 31) && s.position_km.iter().chain(&s.velocity_km_s).all(|v| v.is_finite()));
    let bad = st.is_empty() || st.iter().any(|s| !s.epoch_jd.is_finite() || s.position_km.iter().chain(&s.velocity_km_s).any(|v| !v.is_finite()));
    for (n, r) in [("KVN", &rk), ("XML", &rx)] {
        match r {
            Ok(()) => ensure!(!bad, "{n}: unencodable message written"),
            Err(e) => ensure!(!good, "{n}: encodable message refused: {e}"),
        }
    }
    let mut h = 1;
    let mut first: Option<(Vec<[f64; 7]>, [String; 5])> = None;
    for (n, r, bytes) in [("KVN", rk, &k), ("XML", rx, &x)] {
        if r.is_err() {
            continue;
        }
        let text = std::str::from_utf8(bytes).map_err(|e| e.to_string())?;
        let f = guard(|| if n == "KVN" { read_oem(&bytes[..]) } else { read_oem_xml(&bytes[..]) })?.map_err(|e| format!("{n}: own output refused: {e}"))?;
        ensure!(f.segments.len() == 1 && f.segments[0].states.len() == st.len(), "{n}: {} segments", f.segments.len());
        let s = &f.segments[0];
        ensure!(mkey(&s.metadata).iter().zip(&mkey(m)).all(|(a, b)| a == b || !plain(b) && a.trim() == b.trim()), "{n}: metadata {:?} read back as {:?}", mkey(m), mkey(&s.metadata));
        // every printed epoch is a calendar date naming that instant
        let printed: Vec<&str> = if n == "KVN" { text.lines().skip_while(|l| *l != "META_STOP").skip(1).filter(|l| !l.trim().is_empty()).map(|l| l.split_whitespace().next().unwrap()).collect() } else { tokens_after(text, "<EPOCH>", '<') };
        ensure!(printed.len() == st.len(), "{n}: {} epochs printed for {} states", printed.len(), st.len());
        for (p, w) in printed.iter().zip(st) {
            let (d, sec) = stamp(p).ok_or_else(|| format!("{n}: epoch {p:?} is not a calendar time"))?;
            let off = ((d as f64 + 2_440_587.5) - w.epoch_jd) * DAY + sec;
            ensure!(off.abs() < 25e-6, "{n}: JD {} printed as {p}, {off} s off", w.epoch_jd);
        }
        for (key, w) in [("START_TIME", &st[0]), ("STOP_TIME", st.last().unwrap())] {
            let p = if n == "KVN" { tokens_after(text, key, '\n')[0].trim_start_matches([' ', '=']) } else { tokens_after(text, &format!("<{key}>"), '<')[0] };
            let (d, sec) = stamp(p).ok_or_else(|| format!("{n}: {key} {p:?}"))?;
            ensure!((((d as f64 + 2_440_587.5) - w.epoch_jd) * DAY + sec).abs() < 25e-6, "{n}: {key} {p} for JD {}", w.epoch_jd);
        }
        let mut all = vec![];
        for (i, (g, w)) in s.states.iter().zip(st).enumerate() {
            ensure!((g.epoch_jd - w.epoch_jd).abs() <= 1.5e-9, "{n}: epoch {} read back as {} ({:e} s)", w.epoch_jd, g.epoch_jd, (g.epoch_jd - w.epoch_jd) * DAY);
            for c in 0..3 {
                ensure!(val_ok(g.position_km[c], w.position_km[c], 1e-6), "{n}: state {i} position[{c}] {:e} read back as {:e}", w.position_km[c], g.position_km[c]);
                ensure!(val_ok(g.velocity_km_s[c], w.velocity_km_s[c], 1e-9), "{n}: state {i} velocity[{c}] {:e} read back as {:e}", w.velocity_km_s[c], g.velocity_km_s[c]);
            }
            all.push([g.epoch_jd, g.position_km[0], g.position_km[1], g.position_km[2], g.velocity_km_s[0], g.velocity_km_s[1], g.velocity_km_s[2]]);
        }
        h ^= hf(&all.concat());
        let this = (all, mkey(&s.metadata));
        if let Some(f) = &first {
            ensure!(*f == this, "the encodings carry different content");
        }
        first = Some(this);
    }
    Ok(h | 1)
}
const NAMES: [&str; 31] = ["", "A", "SAT 1", "A  B", "a&b", "a<b>c", "\"q\"", "'q'", "x = y", "= y", "COMMENT", "COMMENT x", "META_START", "META_STOP", "DATA_STOP", "Ñandú→", "&amp;", "&lt;x&gt;", "&#65;", "]]>", "<!-- c -->", "<a/>", "</OBJECT_NAME>", "a\nb", "a\tb", "a\rb", " A", "A ", "\u{a0}A", "a\u{0}b", "%s {}"];

fn days(t: bool) -> Vec<f64> {
    let mut v = vec![];
    let ys: &[i64] = if t { &[1, 4, 99, 100, 1582, 1600, 1699, 1700, 1858, 1899, 1900, 1904, 1969, 1970, 1999, 2000, 2001, 2004, 2023, 2024, 2099, 2100, 2400, 9999] } else { &[1, 1582, 1900, 1970, 1999, 2000, 2023, 2024, 2100, 9999] };
    for &y in ys {
        for (m, d) in [(1, 1), (1, 31), (2, 28), (3, 1), (4, 30), (5, 1), (7, 31), (12, 30)] {
            v.push(jd0(y, m, d));
        }
        if civil(y, 3, 1) - civil(y, 2, 28) == 2 {
            v.push(jd0(y, 2, 29));
        }
        if y < 9999 {
            v.push(jd0(y, 12, 31));
        }
    }
    v
}

pub fn run(tier: Tier) -> Ctx {
    let mut ctx = Ctx::new("C13", "exploration", tier,
        "OEM in both encodings over every instant of a lattice (month, leap-day, century and year rollovers x every minute of the day and its neighbouring floating-point values), every name with special characters in every metadata field, every extreme value in every component; every sequence of sections (data, covariance, maneuver, comment, blank, new segment) up to the bound in KVN and XML; every single-token fault of a data line and every line-truncation; OPM over names, values, key orders and single missing or malformed keys; TDM over message shapes, keywords, section sequences and faults. Non-trivial: the message was read back and compared, or a fault was refused.");
    ctx.assumptions = vec!["printed precision: OEM 1e-6 km, 1e-9 km/s and one microsecond plus the resolution of the Julian date; OPM the writer's decimals; surrounding white space of a name is not significant; a data line followed by anything other than a numeric acceleration is malformed".into()];
    let t = tier == Tier::Thorough;

    // 1. OEM round trips
    let ds = days(t);
    ctx.par(&ds, |l, &d| {
        let step = ctx.pick(7, 1);
        let st: Vec<f64> = (0..1440).step_by(step).flat_map(|m| {
            let x = d + m as f64 / 1440.0;
            let u = |k: i64| f64::from_bits((x.to_bits() as i64 + k) as u64);
            (-3..=3).map(u).filter(|v| *v >= d).collect::<Vec<_>>()
        }).chain((1..400).map(|k| f64::from_bits((d + 1.0).to_bits() - k))).collect();
        for (i, c) in st.chunks(16).enumerate() {
            l.case("oem-epoch", &format!("JD {d} chunk {i}"), || {
                let v: Vec<OemState> = c.iter().enumerate().map(|(j, &e)| OemState::new(e, [7000.0 + j as f64, -1.5, 0.25], [0.0, 7.5, -1e-3 * j as f64])).collect();
                check_oem(&meta0(), &v)
            });
        }
    });
    let mut l = Local::default();
    for f in 0..5 {
        for (i, n) in NAMES.iter().enumerate() {
            l.case("oem-name", &format!("field {f} name#{i} {n:?}"), || {
                let mut v = ["SAT", "2020-001A", "EARTH", "EME2000", "UTC"];
                v[f] = n;
                check_oem(&meta(v[0], v[1], v[2], v[3], v[4]), &[OemState::new(2_451_545.0, [7000.0, 0.0, 0.0], [0.0, 7.5, 0.0])])
            });
        }
    }
    let vals = [0.0, -0.0, 5e-7, -5e-7, 4.999e-7, 1e-9, 5e-10, -4.9e-10, 0.1, -0.3, 1.0 / 3.0, 123_456_789.123_456, -9_999_999.999_999_5, 1e15, -1e22, 1e300, 1e-300, f64::MAX, f64::MIN_POSITIVE, f64::NAN, f64::INFINITY, f64::NEG_INFINITY];
    for c in 0..6 {
        for &v in &vals {
            l.case("oem-value", &format!("component {c} = {v:e}"), || {
                let mut s = OemState::new(2_460_000.25, [7000.0, -6999.5, 1.0], [1.0, 7.5, -7.5]);
                if c < 3 { s.position_km[c] = v } else { s.velocity_km_s[c - 3] = v }
                check_oem(&meta0(), &[OemState::new(2_460_000.0, [7000.0, 0.0, 0.0], [0.0, 7.5, 0.0]), s, s])
            });
        }
    }
    for e in [f64::NAN, f64::INFINITY, -1e9, 0.0, 1e7, jd0(9999, 12, 31) + 0.9, jd0(0, 6, 1), f64::from_bits((jd0(10000, 1, 1)).to_bits() - 1), jd0(10000, 1, 1)] {
        l.case("oem-epoch-range", &format!("JD {e}"), || check_oem(&meta0(), &[OemState::new(e, [7000.0, 0.0, 0.0], [0.0, 7.5, 0.0])]));
    }
    for n in 0..5 {
        l.case("oem-count", &format!("{n} states"), || {
            let v: Vec<OemState> = (0..n).map(|i| OemState::new(2_460_000.0 + [0.5, 0.0, 0.5, 0.25, 1.0][i], [i as f64, 0.0, 0.0], [0.0; 3])).collect();
            check_oem(&meta0(), &v)
        });
    }
    // 2. section sequences
    for s in sequences(6, ctx.pick(5, 7)) {
        l.case("oem-kvn-sections", &format!("{s:?}"), || kvn_sections(&s));
    }
    for s in sequences(6, ctx.pick(5, 7)) {
        l.case("oem-xml-sections", &format!("{s:?}"), || xml_sections(&s));
    }
    // truncations: what is read is exactly what is there, or the file is refused
    for s in sequences(6, 4) {
        let (text, _) = kvn_text(&s);
        let lines: Vec<&str> = text.lines().collect();
        for cut in 0..lines.len() {
            l.case("oem-kvn-truncated", &format!("{s:?} after line {cut}"), || {
                let part = lines[..cut].join("\n");
                let n = lines[..cut].iter().filter(|x| x.starts_with("2021-")).count();
                match guard(|| read_oem(part.as_bytes()))? {
                    Ok(f) => {
                        let k: usize = f.segments.iter().map(|s| s.states.len()).sum();
                        ensure!(k == n, "{n} data lines, {k} read");
                        Ok(k as u64 + 1)
                    }
                    Err(_) => Ok(1),
                }
            });
        }
    }
    faults(&mut l);
    opm(&mut l, t);
    tdm(&mut l, t);
    ctx.merge(l);
    ctx
}
const SEGHEAD: [(&str, &str); 5] = [("OBJECT_NAME", "SAT"), ("OBJECT_ID", "2020-001"), ("CENTER_NAME", "EARTH"), ("REF_FRAME", "EME2000"), ("TIME_SYSTEM", "UTC")];
type Want = Vec<(String, Vec<f64>)>;
/// 0 data line, 1 covariance block, 2 maneuver block, 3 comment, 4 blank, 5 new segment
fn kvn_text(s: &[usize]) -> (String, Want) {
    let mut text = String::from("CCSDS_OEM_VERS = 2.0\nCREATION_DATE = 2021-01-01T00:00:00\nORIGINATOR = X\n");
    let mut want: Want = vec![];
    let head = |text: &mut String, want: &mut Want| {
        let n = want.len();
        text.push_str("\nMETA_START\n");
        for (k, v) in SEGHEAD {
            text.push_str(&format!("{k} = {v}{}\n", if k == "OBJECT_NAME" { format!(" {n}") } else { String::new() }));
        }
        text.push_str("START_TIME = 2021-01-01T00:00:00\nINTERPOLATION = LAGRANGE\nMETA_STOP\n");
        want.push((format!("SAT {n}"), vec![]));
    };
    head(&mut text, &mut want);
    let mut n = 0;
    for &k in s {
        match k {
            0 => {
                n += 1;
                text.push_str(&format!("2021-01-01T00:{n:02}:00.5 {n}.25 -1 2 0.5 0.25 -3\n"));
                want.last_mut().unwrap().1.push(n as f64 + 0.25);
            }
            1 => text.push_str("COVARIANCE_START\nEPOCH = 2021-01-01T00:00:00\nCOV_REF_FRAME = RTN\n3.3e-4\n4.6e-4 6.7e-4\nCOVARIANCE_STOP\n"),
            2 => text.push_str("MAN_START\nMAN_EPOCH_IGNITION = 2021-01-01T00:00:00\nMAN_DV_1 = 1\nMAN_STOP\n"),
            3 => text.push_str("COMMENT 2021-01-01T00:00:00 9 9 9 9 9 9\n"),
            4 => text.push_str("  \n"),
            _ => head(&mut text, &mut want),
        }
    }
    (text, want)
}
fn compare(f: &OemFile, want: &Want) -> Outcome {
    ensure!(f.segments.len() == want.len(), "{} segments read, {} written", f.segments.len(), want.len());
    for (i, (s, w)) in f.segments.iter().zip(want).enumerate() {
        ensure!(s.metadata.object_name == w.0, "segment {i} is {:?}, not {:?}", s.metadata.object_name, w.0);
        let x: Vec<f64> = s.states.iter().map(|s| s.position_km[0]).collect();
        ensure!(x == w.1, "segment {i}: data lines {x:?}, not {:?}", w.1);
        for s in &s.states {
            let m = s.position_km[0].floor();
            ensure!((s.epoch_jd - jd0(2021, 1, 1) - (m * 60.0 + 0.5) / DAY).abs() < 2e-9, "epoch of line {m}");
        }
    }
    Ok(hstr(&format!("{want:?}")) | 1)
}
fn kvn_sections(s: &[usize]) -> Outcome {
    let (text, want) = kvn_text(s);
    let f = guard(|| read_oem(text.as_bytes()))?.map_err(|e| format!("valid message refused: {e}"))?;
    ensure!(f.version == "2.0" && f.originator == "X" && f.creation_date == "2021-01-01T00:00:00", "header {} {}", f.version, f.originator);
    compare(&f, &want)?;
    // CR LF line ends carry the same content
    let crlf = text.replace('\n', "\r\n");
    compare(&guard(|| read_oem(crlf.as_bytes()))?.map_err(|e| format!("CR LF refused: {e}"))?, &want)
}
/// 0 state vector, 1 covariance, 2 state vector with odd markup, 3 comment, 4 XML comment, 5 new segment
fn xml_sections(s: &[usize]) -> Outcome {
    let mut text = String::from("<?xml version=\"1.0\"?>\n<oem id=\"CCSDS_OEM_VERS\" version=\"2.0\"><header><COMMENT>c</COMMENT><CREATION_DATE>2021-01-01T00:00:00</CREATION_DATE><ORIGINATOR>X</ORIGINATOR></header><body>\n");
    let mut want: Want = vec![];
    let head = |text: &mut String, want: &mut Want| {
        let n = want.len();
        text.push_str("<segment><metadata>");
        for (k, v) in SEGHEAD {
            text.push_str(&format!("<{k}>{v}{}</{k}>", if k == "OBJECT_NAME" { format!(" {n}") } else { String::new() }));
        }
        text.push_str("<START_TIME>2021-01-01T00:00:00</START_TIME></metadata><data>");
        want.push((format!("SAT {n}"), vec![]));
    };
    head(&mut text, &mut want);
    let mut n = 0;
    for &k in s {
        match k {
            0 | 2 => {
                n += 1;
                let x = if k == 0 { format!("{n}.25") } else { format!("\n  {n}<!-- c -->.<![CDATA[2]]>&#53;\t") };
                text.push_str(&format!("<stateVector><COMMENT>v</COMMENT><EPOCH>2021-01-01T00:{n:02}:00.5</EPOCH><X units=\"km\">{x}</X><Y>-1</Y><Z>2</Z><X_DOT>0.5</X_DOT><Y_DOT>0.25</Y_DOT><Z_DOT>-3</Z_DOT></stateVector>\n"));
                want.last_mut().unwrap().1.push(n as f64 + 0.25);
            }
            1 => text.push_str("<covarianceMatrix><EPOCH>2021-01-01T00:00:00</EPOCH><CX_X>1</CX_X><X>9</X></covarianceMatrix>"),
            3 => text.push_str("<COMMENT>note</COMMENT>"),
            4 => text.push_str("<!-- <stateVector> -->"),
            _ => {
                text.push_str("</data></segment>");
                head(&mut text, &mut want);
            }
        }
    }
    text.push_str("</data></segment></body></oem>");
    let f = guard(|| read_oem_xml(text.as_bytes()))?.map_err(|e| format!("valid message refused: {e}\n{text}"))?;
    ensure!(f.version == "2.0" && f.originator == "X", "header {} {}", f.version, f.originator);
    compare(&f, &want)
}
const BADNUM: [&str; 12] = ["NaN", "nan", "inf", "-inf", "infinity", "x", "1..2", "1,5", "--1", "1e", "0x10", "1_0"];
fn bad_epochs() -> Vec<&'static str> {
    vec!["2021-13-01T00:00:00", "2021-00-01T00:00:00", "2021-01-00T00:00:00", "2021-01-32T00:00:00", "2021-02-29T00:00:00", "2021-04-31T00:00:00", "1900-02-29T00:00:00", "2021-06-31T00:00:00", "2021-01-01T24:00:00", "2021-01-01T00:60:00", "2021-01-01T00:00:61", "2021-01-01T00:00:-1", "2021-01-01T00:00:NaN", "2021-01-01T00:00:inf", "2021-01-01", "2021-01-01T", "T00:00:00", "2021-01T00:00:00", "2021-01-01T00:00", "2021-1x-01T00:00:00", "x", "2021-01-01-05T00:00:00", "2021-01-01T00:00:00:00"]
}
fn faults(l: &mut Local) {
    let head = kvn_text(&[]).0;
    let toks = ["2021-01-01T00:01:00", "1", "2", "3", "4", "5", "6"];
    let xml = |v: &[&str]| {
        let tags = ["EPOCH", "X", "Y", "Z", "X_DOT", "Y_DOT", "Z_DOT"];
        let mut s = String::from("<oem version=\"2.0\"><header/><body><segment><metadata>");
        for (k, x) in SEGHEAD { s.push_str(&format!("<{k}>{x}</{k}>")); }
        s.push_str("</metadata><data><stateVector>");
        for (k, x) in tags.iter().zip(v) { if !x.is_empty() { s.push_str(&format!("<{k}>{x}</{k}>")); } }
        s + "</stateVector></data></segment></body></oem>"
    };
    let refuse = |r: Result<OemFile, FormatError>| -> Outcome {
        match r { Err(e) => Ok(hstr(&e.to_string()) | 1), Ok(f) => Err(format!("accepted: {:?}", f.segments.iter().map(|s| s.states.clone()).collect::<Vec<_>>())) }
    };
    l.case("oem-fault", "control", || {
        let f = read_oem(format!("{head}{}\n", toks.join(" ")).as_bytes()).map_err(|e| e.to_string())?;
        let g = read_oem_xml(xml(&toks).as_bytes()).map_err(|e| e.to_string())?;
        ensure!(f.segments[0].states == g.segments[0].states && f.segments[0].states[0].velocity_km_s == [4.0, 5.0, 6.0], "{:?} {:?}", f.segments[0].states, g.segments[0].states);
        Ok(1)
    });
    for i in 0..7 {
        let bad: Vec<&str> = if i == 0 { bad_epochs() } else { BADNUM.to_vec() };
        for b in bad.iter().chain(&[""]) {
            let mut v = toks;
            v[i] = b;
            // an emptied first token leaves a line of numbers: still malformed
            l.case("oem-fault", &format!("kvn token {i} = {b:?}"), || refuse(guard(|| read_oem(format!("{head}{}\n", v.join(" ")).as_bytes()))?));
            l.case("oem-fault", &format!("xml token {i} = {b:?}"), || refuse(guard(|| read_oem_xml(xml(&v).as_bytes()))?));
        }
    }
    for extra in ["7", "7 8", "7 8 9 10", "x", "NaN 1 2", "7 8 x"] {
        l.case("oem-fault", &format!("kvn extra {extra:?}"), || refuse(guard(|| read_oem(format!("{head}{} {extra}\n", toks.join(" ")).as_bytes()))?));
    }
    l.case("oem-fault", "kvn acceleration", || {
        let f = read_oem(format!("{head}{} 7 8 9\n", toks.join(" ")).as_bytes()).map_err(|e| e.to_string())?;
        ensure!(f.segments[0].states.len() == 1, "dropped");
        Ok(1)
    });
    for (k, _) in SEGHEAD {
        l.case("oem-fault", &format!("kvn without {k}"), || refuse(guard(|| read_oem(head.lines().filter(|x| !x.starts_with(k)).collect::<Vec<_>>().join("\n").as_bytes()))?));
        l.case("oem-fault", &format!("xml without {k}"), || { let x = xml(&toks); let (a, b) = (x.find(&format!("<{k}>")).unwrap(), x.find(&format!("</{k}>")).unwrap()); refuse(guard(|| read_oem_xml(format!("{}{}", &x[..a], &x[b + k.len() + 3..]).as_bytes()))?) });
    }
    for cut in ["</data>", "</segment>", "</stateVector>"] {
        l.case("oem-fault", &format!("xml cut before {cut}"), || { let x = xml(&toks); refuse(guard(|| read_oem_xml(x[..x.find(cut).unwrap()].as_bytes()))?) });
    }
}
pub fn opm_msg() -> OpmMessage {
    OpmMessage {
        metadata: OpmMetadata { object_name: "SAT".into(), object_id: "2020-001A".into(), center_name: "EARTH".into(), ref_frame: "ICRF".into(), time_system: "TT".into() },
        state: CartesianState { epoch: "2024-02-29T23:59:59.999".into(), position_km: [7000.0, -1.5, 0.25], velocity_km_s: [0.125, 7.5, -1.0] },
        keplerian: Some(KeplerianElements { semi_major_axis_km: 7000.5, eccentricity: 0.0012345, inclination_deg: 51.6, ra_of_asc_node_deg: 247.4627, arg_of_pericenter_deg: 130.5, true_anomaly_deg: 359.9999 }),
    }
}
fn check_opm(m: &OpmMessage) -> Outcome {
    let mut b = vec![];
    let k = m.keplerian.as_ref().map(|k| [k.semi_major_axis_km, k.eccentricity, k.inclination_deg, k.ra_of_asc_node_deg, k.arg_of_pericenter_deg, k.true_anomaly_deg]);
    let text = |m: &OpmMessage| [m.metadata.object_name.clone(), m.metadata.object_id.clone(), m.metadata.center_name.clone(), m.metadata.ref_frame.clone(), m.metadata.time_system.clone(), m.state.epoch.clone()];
    let finite = m.state.position_km.iter().chain(&m.state.velocity_km_s).chain(k.iter().flatten()).all(|v| v.is_finite());
    let good = finite && text(m).iter().all(|s| plain(s));
    if let Err(e) = guard(|| write_opm(&mut b, m).map_err(|e| e.to_string()))? {
        ensure!(!good, "encodable message refused: {e}");
        return Ok(hstr(&e) | 1);
    }
    ensure!(finite, "unencodable message written");
    let g = guard(|| read_opm(&b[..]))?.map_err(|e| format!("own output refused: {e}"))?;
    ensure!(text(&g).iter().zip(&text(m)).all(|(a, b)| a == b || !plain(b) && a.trim() == b.trim()), "{:?} read back as {:?}", text(m), text(&g));
    for c in 0..3 {
        ensure!(val_ok(g.state.position_km[c], m.state.position_km[c], 1e-6) && val_ok(g.state.velocity_km_s[c], m.state.velocity_km_s[c], 1e-6), "state {:?} read back as {:?}", m.state, g.state);
    }
    ensure!(g.keplerian.is_some() == k.is_some(), "Keplerian block appears or disappears");
    if let (Some(a), Some(w)) = (g.keplerian, k) {
        let a = [a.semi_major_axis_km, a.eccentricity, a.inclination_deg, a.ra_of_asc_node_deg, a.arg_of_pericenter_deg, a.true_anomaly_deg];
        for (i, q) in [1e-6, 1e-7, 1e-4, 1e-4, 1e-4, 1e-4].into_iter().enumerate() {
            ensure!(val_ok(a[i], w[i], q), "element {i}: {} read back as {}", w[i], a[i]);
        }
    }
    Ok(hstr(std::str::from_utf8(&b).unwrap()) | 1)
}
fn opm(l: &mut Local, t: bool) {
    for f in 0..6 {
        for (i, n) in NAMES.iter().enumerate() {
            l.case("opm-name", &format!("field {f} name#{i} {n:?}"), || {
                let mut m = opm_msg();
                *[&mut m.metadata.object_name, &mut m.metadata.object_id, &mut m.metadata.center_name, &mut m.metadata.ref_frame, &mut m.metadata.time_system, &mut m.state.epoch][f] = n.to_string();
                check_opm(&m)
            });
        }
    }
    for c in 0..12 {
        for v in [0.0, -0.0, 4.9e-7, 5e-7, -0.3, 1.0 / 3.0, 359.99995, 123_456_789.123_456, -1e22, 1e300, f64::NAN, f64::INFINITY, f64::NEG_INFINITY] {
            for kep in [true, false] {
                l.case("opm-value", &format!("field {c} = {v:e} kepler {kep}"), || {
                    let mut m = opm_msg();
                    let k = m.keplerian.as_mut().unwrap();
                    *[&mut m.state.position_km[0], &mut k.semi_major_axis_km, &mut k.eccentricity, &mut k.inclination_deg, &mut k.ra_of_asc_node_deg, &mut k.arg_of_pericenter_deg, &mut k.true_anomaly_deg][if (3..9).contains(&c) { c - 2 } else { 0 }] = if (3..9).contains(&c) || c == 0 { v } else { 7.0 };
                    match c { 1 | 2 => m.state.position_km[c] = v, 9..=11 => m.state.velocity_km_s[c - 9] = v, _ => {} }
                    if !kep { m.keplerian = None }
                    check_opm(&m)
                });
            }
        }
    }
    // key orders, missing keys, malformed values
    let keys: Vec<(&str, &str)> = vec![("OBJECT_NAME", "SAT"), ("OBJECT_ID", "2020-001A"), ("CENTER_NAME", "MARS"), ("REF_FRAME", "ICRF"), ("TIME_SYSTEM", "TT"), ("EPOCH", "2024-01-01T00:00:00"), ("X", "1"), ("Y", "2"), ("Z", "3"), ("X_DOT", "4"), ("Y_DOT", "5"), ("Z_DOT", "6"), ("SEMI_MAJOR_AXIS", "7"), ("ECCENTRICITY", "0.5"), ("INCLINATION", "9"), ("RA_OF_ASC_NODE", "10"), ("ARG_OF_PERICENTER", "11"), ("TRUE_ANOMALY", "12"), ("GM", "398600.4"), ("MASS", "100"), ("CX_X", "1e-3"), ("MAN_DV_1", "1"), ("USER_DEFINED_X", "4")];
    let render = |k: &[(&str, &str)]| -> String { format!("CCSDS_OPM_VERS = 2.0\nCOMMENT X = 99\nMETA_START\n{}\n", k.iter().map(|(a, b)| format!("{a} = {b}")).collect::<Vec<_>>().join("\n")) };
    let same = |text: String| -> Outcome {
        let m = guard(|| read_opm(text.as_bytes()))?.map_err(|e| format!("refused: {e}"))?;
        let k = m.keplerian.ok_or("Keplerian block dropped")?;
        ensure!(m.metadata.object_name == "SAT" && m.metadata.object_id == "2020-001A" && m.metadata.center_name == "MARS" && m.metadata.ref_frame == "ICRF" && m.metadata.time_system == "TT" && m.state.epoch == "2024-01-01T00:00:00", "{:?}", m.metadata);
        ensure!(m.state.position_km == [1.0, 2.0, 3.0] && m.state.velocity_km_s == [4.0, 5.0, 6.0], "{:?}", m.state);
        ensure!([k.semi_major_axis_km, k.eccentricity, k.inclination_deg, k.ra_of_asc_node_deg, k.arg_of_pericenter_deg, k.true_anomaly_deg] == [7.0, 0.5, 9.0, 10.0, 11.0, 12.0], "{k:?}");
        Ok(hstr(&text) | 1)
    };
    for r in 0..keys.len() {
        for rev in [false, true] {
            let mut k = keys.clone();
            k.rotate_left(r);
            if rev { k.reverse() }
            l.case("opm-order", &format!("rotation {r} reversed {rev}"), || same(render(&k)));
        }
        if t || r < 6 {
            for q in 0..keys.len() {
                let mut k = keys.clone();
                k.swap(r, q);
                l.case("opm-order", &format!("swap {r} {q}"), || same(render(&k)));
            }
        }
    }
    for i in 0..keys.len() {
        let mut k = keys.clone();
        k.remove(i);
        l.case("opm-fault", &format!("without {}", keys[i].0), || {
            let r = guard(|| read_opm(render(&k).as_bytes()))?;
            let must = i == 0 || (5..18).contains(&i);
            ensure!(r.is_err() == must, "{}", if must { "accepted" } else { "refused" });
            Ok(if must { 1 } else { 3 })
        });
        if (6..18).contains(&i) {
            for b in BADNUM.iter().chain(&[""]) {
                let mut k = keys.clone();
                k[i].1 = b;
                l.case("opm-fault", &format!("{} = {b:?}", keys[i].0), || { ensure!(guard(|| read_opm(render(&k).as_bytes()))?.is_err(), "accepted"); Ok(1) });
            }
        }
    }
}
fn obs_key(o: &ObservationData) -> (String, String, u64) {
    let k = match &o.obs_type { ObservationType::Range => "RANGE".into(), ObservationType::Doppler => "DOPPLER_INSTANTANEOUS".to_string(), ObservationType::Angle1 => "ANGLE_1".into(), ObservationType::Angle2 => "ANGLE_2".into(), ObservationType::Other(s) => s.clone() };
    (k, o.epoch.clone(), o.value.to_bits())
}
pub fn tmeta(n: usize, mode: &str, path: &str, ts: &str) -> TdmMetadata {
    TdmMetadata { participants: (0..n).map(|i| format!("P{i}")).collect(), mode: mode.into(), path: path.into(), time_system: ts.into() }
}
fn tkey(m: &TdmMetadata) -> Vec<String> {
    let mut v = m.participants.clone();
    v.extend(["/".into(), m.mode.clone(), m.path.clone(), m.time_system.clone()]);
    v
}
fn check_tdm(m: &TdmMessage) -> Outcome {
    let mut b = vec![];
    let kw = |o: &ObservationData| obs_key(o).0;
    let finite = m.observations.iter().all(|o| o.value.is_finite());
    let good = finite && m.metadata.iter().flat_map(tkey).all(|s| plain(&s)) && m.observations.iter().all(|o| plain(&o.epoch) && !o.epoch.is_empty() && kw(o).bytes().all(|b| b.is_ascii_uppercase() || b.is_ascii_digit() || b == b'_') && !kw(o).is_empty() && !kw(o).starts_with("COMMENT") && !kw(o).starts_with("CCSDS_TDM"));
    if let Err(e) = guard(|| write_tdm(&mut b, m).map_err(|e| e.to_string()))? {
        ensure!(!good, "encodable message refused: {e}");
        return Ok(hstr(&e) | 1);
    }
    ensure!(finite, "unencodable message written");
    let g = guard(|| read_tdm(&b[..]))?.map_err(|e| format!("own output refused: {e}"))?;
    ensure!(g.metadata.len() == m.metadata.len(), "{} metadata blocks read back, {} written", g.metadata.len(), m.metadata.len());
    for (a, w) in g.metadata.iter().zip(&m.metadata) {
        ensure!(tkey(a).len() == tkey(w).len() && tkey(a).iter().zip(&tkey(w)).all(|(x, y)| x == y || !plain(y) && x.trim() == y.trim()), "metadata {:?} read back as {:?}", tkey(w), tkey(a));
    }
    let (a, w): (Vec<_>, Vec<_>) = (g.observations.iter().map(obs_key).collect(), m.observations.iter().map(obs_key).collect());
    ensure!(a == w, "observations {w:?} read back as {a:?}");
    Ok(hstr(std::str::from_utf8(&b).unwrap()) | 1)
}
fn tdm(l: &mut Local, t: bool) {
    let ob = |k: &str, e: &str, v: f64| ObservationData { obs_type: match k { "RANGE" => ObservationType::Range, "DOPPLER_INSTANTANEOUS" => ObservationType::Doppler, "ANGLE_1" => ObservationType::Angle1, "ANGLE_2" => ObservationType::Angle2, o => ObservationType::Other(o.into()) }, epoch: e.into(), value: v };
    let one = || TdmMessage { metadata: vec![tmeta(2, "SEQUENTIAL", "1,2,1", "UTC")], observations: vec![ob("RANGE", "2024-001T12:00:00", 23000.0)] };
    for (i, n) in NAMES.iter().enumerate() {
        for f in 0..6 {
            l.case("tdm-name", &format!("field {f} name#{i} {n:?}"), || {
                let mut m = one();
                let d = &mut m.metadata[0];
                match f { 0 => d.participants[0] = n.to_string(), 1 => d.mode = n.to_string(), 2 => d.path = n.to_string(), 3 => d.time_system = n.to_string(), 4 => m.observations[0].epoch = n.to_string(), _ => m.observations[0].obs_type = ObservationType::Other(n.to_string()) }
                check_tdm(&m)
            });
        }
    }
    for v in [0.0, -0.0, 1e-300, 5e-324, 0.1, 1.0 / 3.0, 123456789.123456789, -1e22, f64::MAX, f64::NAN, f64::INFINITY] {
        l.case("tdm-value", &format!("{v:e}"), || { let mut m = one(); m.observations[0].value = v; check_tdm(&m) });
    }
    for blocks in product(&[4, 4, 4]) {
        for no in 0..6 {
            l.case("tdm-shape", &format!("participants {blocks:?} {no} observations"), || {
                let m = TdmMessage {
                    metadata: blocks.iter().filter(|b| **b < 3).map(|b| tmeta(*b, ["", "SEQUENTIAL", "SINGLE_DIFF"][*b], ["1,2,1", "", "2,1"][*b], ["UTC", "TAI", ""][*b])).collect(),
                    observations: (0..no).map(|i| ob(["RANGE", "ANGLE_1", "ANGLE_2", "DOPPLER_INSTANTANEOUS", "CLOCK_BIAS", "RANGE"][i], &format!("2024-001T12:00:0{}", (i * 2) % 5), i as f64 * 0.1)).collect(),
                };
                check_tdm(&m)
            });
        }
    }
    // every keyword keeps its identity through read and write
    let kws = ["CARRIER_POWER", "DOPPLER_COUNT", "DOPPLER_INSTANTANEOUS", "DOPPLER_INTEGRATED", "PC_N0", "RECEIVE_PHASE_CT_1", "TRANSMIT_PHASE_CT_1", "PR_N0", "RANGE", "RECEIVE_FREQ_1", "RECEIVE_FREQ", "TRANSMIT_FREQ_1", "TRANSMIT_FREQ_RATE_1", "DOR", "VLBI_DELAY", "ANGLE_1", "ANGLE_2", "MAG", "RCS", "CLOCK_BIAS", "CLOCK_DRIFT", "STEC", "TROPO_DRY", "TROPO_WET", "PRESSURE", "RHUMIDITY", "TEMPERATURE"];
    for a in kws {
        for b in kws {
            l.case("tdm-keyword", &format!("{a} {b}"), || {
                let text = format!("CCSDS_TDM_VERS = 2.0\nMETA_START\nPARTICIPANT_1 = S\nMETA_STOP\nDATA_START\n{a} = 2024-001T00:00:00 : 1.5\n{b} = 2024-001T00:00:01 : -2.5\nDATA_STOP\n");
                let m = guard(|| read_tdm(text.as_bytes()))?.map_err(|e| e.to_string())?;
                let mut out = vec![];
                write_tdm(&mut out, &m).map_err(|e| e.to_string())?;
                let lines: Vec<String> = String::from_utf8(out).unwrap().lines().filter(|x| x.contains(" : ")).map(|x| x.split('=').next().unwrap().trim().to_string()).collect();
                ensure!(lines == [a, b], "keywords rewritten as {lines:?}");
                ensure!(m.observations.iter().map(|o| o.value).collect::<Vec<_>>() == [1.5, -2.5], "values");
                Ok(hstr(&lines.concat()) | 1)
            });
        }
    }
    // participants are numbered, not ordered
    for p in permutations(4) {
        l.case("tdm-participants", &format!("{p:?}"), || {
            let lines: Vec<String> = p.iter().map(|i| format!("PARTICIPANT_{} = P{i}", i + 1)).collect();
            let text = format!("CCSDS_TDM_VERS = 2.0\nMETA_START\n{}\nPATH = 1,2,1\nMETA_STOP\nDATA_START\nDATA_STOP\n", lines.join("\n"));
            let m = guard(|| read_tdm(text.as_bytes()))?.map_err(|e| e.to_string())?;
            ensure!(m.metadata[0].participants == ["P0", "P1", "P2", "P3"], "{:?}", m.metadata[0].participants);
            Ok(hstr(&text) | 1)
        });
    }
    // section sequences: 0 metadata, 1 data with one line, 2 data with two, 3 comment, 4 blank, 5 empty data
    for s in sequences(6, if t { 6 } else { 5 }) {
        l.case("tdm-sections", &format!("{s:?}"), || {
            let mut text = String::from("CCSDS_TDM_VERS = 2.0\nCREATION_DATE = 2024-01-01T00:00:00\nORIGINATOR = X\n");
            let (mut metas, mut obs) = (vec![], vec![]);
            let mut n = 0;
            for &k in &s {
                match k {
                    0 => { text.push_str(&format!("META_START\nCOMMENT x = y\nTIME_SYSTEM = UTC\nPARTICIPANT_1 = P{}\nMODE = SEQUENTIAL\nMETA_STOP\n", metas.len())); metas.push(format!("P{}", metas.len())); }
                    1 | 2 => {
                        text.push_str("DATA_START\n");
                        for _ in 0..k { n += 1; text.push_str(&format!("RANGE = 2024-001T00:00:00 : {n}\n  COMMENT between\n")); obs.push(n as f64); }
                        text.push_str("DATA_STOP\n");
                    }
                    3 => text.push_str("COMMENT RANGE = 2024 : 1\n"),
                    4 => text.push('\n'),
                    _ => text.push_str("DATA_START\nDATA_STOP\n"),
                }
            }
            for text in [text.clone(), text.replace('\n', "\r\n")] {
                let m = guard(|| read_tdm(text.as_bytes()))?.map_err(|e| format!("valid message refused: {e}"))?;
                ensure!(m.metadata.iter().map(|m| m.participants.concat()).collect::<Vec<_>>() == metas, "metadata blocks");
                ensure!(m.observations.iter().map(|o| o.value).collect::<Vec<_>>() == obs, "observations");
            }
            Ok(hstr(&text) | 1)
        });
    }
    let fault = |name: &str, text: String, l: &mut Local| l.case("tdm-fault", name, || {
        match guard(|| read_tdm(text.as_bytes()))? { Err(e) => Ok(hstr(&e.to_string()) | 1), Ok(m) => Err(format!("accepted as {} metadata blocks, {:?}", m.metadata.len(), m.observations)) }
    });
    let h = "CCSDS_TDM_VERS = 2.0\nMETA_START\nPARTICIPANT_1 = S\nMETA_STOP\nDATA_START\nRANGE = 2024-001T00:00:00 : 1\n";
    for b in BADNUM.iter().chain(&[""]) {
        fault(&format!("value {b:?}"), format!("{h}RANGE = 2024-001T00:00:01 : {b}\nDATA_STOP\n"), l);
    }
    for b in ["RANGE 2024-001T00:00:01 : 5", "RANGE = 2024-001T00:00:01:5", "RANGE", "RANGE =", "garbage"] {
        fault(&format!("line {b:?}"), format!("{h}{b}\nDATA_STOP\n"), l);
    }
    fault("metadata never closed", "CCSDS_TDM_VERS = 2.0\nMETA_START\nPARTICIPANT_1 = S\n".into(), l);
    fault("metadata open at data", "CCSDS_TDM_VERS = 2.0\nMETA_START\nPARTICIPANT_1 = S\nDATA_START\nRANGE = a : 1\nDATA_STOP\n".into(), l);
    fault("metadata opened twice", "CCSDS_TDM_VERS = 2.0\nMETA_START\nPARTICIPANT_1 = S\nMETA_START\nPARTICIPANT_1 = T\nMETA_STOP\n".into(), l);
}
