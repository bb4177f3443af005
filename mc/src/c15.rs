//! C15: every reader, on every catalogued fault of a valid sample of its format: truncations, single
//! characters and tokens replaced, lines deleted, repeated and exchanged. A value or an error, in bounded time.
use crate::core::*;
use crate::{c12, c13, c14};
use siderust::catalogs::parse_csv_chunk;
use siderust::formats::ccsds::{oem, opm, tdm};
use siderust::formats::igs::{antex, orbex, sinex, sp3};
use siderust::formats::ilrs::{cpf, crd};
use siderust::formats::rinex::{doris, nav, obs};
use siderust::formats::tle::omm::{json, kvn, xml, Omm};
use siderust::formats::tle::{self, format_tle, parse_3le, parse_tle};
use siderust::formats::{adsb, iers, sck, vlbi, ParseMode};
use std::collections::HashMap;
use std::time::{Duration, Instant};

type Dec = Box<dyn Fn(&[u8]) -> u64 + Send + Sync>;
struct Format {
    name: &'static str,
    sample: Vec<u8>,
    dec: Dec,
}
const MODES: [ParseMode; 2] = [ParseMode::Strict, ParseMode::Permissive];
fn shown(r: Result<impl std::fmt::Debug, impl std::fmt::Display>) -> String {
    match r {
        Ok(v) => format!("{v:?}"),
        Err(e) => format!("refused {e}"),
    }
}
fn text(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}
fn sample(w: impl FnOnce(&mut Vec<u8>)) -> Vec<u8> {
    let mut b = vec![];
    w(&mut b);
    b
}

fn formats() -> Vec<Format> {
    let mut v: Vec<Format> = vec![];
    let mut add = |name, sample: Vec<u8>, dec: Dec| v.push(Format { name, sample, dec });
    let t = |s: u32| c14::utc(2024, 2, 29, 23, 59, s, 250_000_000).unwrap();

    add("sp3", [c14::SP3_LINES[0], "##  2024  60 86370.00000000   900.00000000 60310  0.0000000000000", "+    2   G01G32", "%c G  cc GPS", "/* comment", c14::SP3_LINES[1], c14::SP3_LINES[3], c14::SP3_LINES[4], c14::SP3_LINES[5], c14::SP3_LINES[6], c14::SP3_LINES[2], c14::SP3_LINES[3], "EOF"].join("\n").into_bytes(), Box::new(|b| {
        let r = sp3::read_sp3(b);
        let mut out = vec![];
        if let Ok(f) = &r {
            let _ = sp3::write_sp3(&mut out, f);
        }
        if let Ok(mut s) = sp3::Sp3Stream::new(b) {
            for _ in 0..100_000 {
                if !matches!(s.next_epoch(), Ok(Some(_))) {
                    break;
                }
            }
            let _ = s.next_epoch();
        }
        hstr(&shown(r)) ^ fnv(&out)
    }));
    let rows: Vec<String> = ["STAX", "STAY", "STAZ", "VELX"].iter().enumerate().map(|(i, p)| format!("{:>6} {p:<6} ABCD  A    1 10:001:00000 m    2 {:.14e} 1.0E-04\n", i + 1, 1e6 + i as f64)).collect();
    add("sinex", c14::snx(&rows).into_bytes(), Box::new(|b| MODES.map(|m| hstr(&shown(sinex::read_sinex(b, m)))).iter().fold(1, |a, x| a ^ x)));
    add("orbex", "%=ORBEX  0.09\n%%\n+FILE/DESCRIPTION\n  DESCRIPTION         test\n-FILE/DESCRIPTION\n+EPHEMERIS/DATA\n##  2024 02 29 23 59 59.500 2\n##  2024 060 43200.5\n#ORB\n G01 1.5 -2.5 3.5\n PCS G01 1.5 -2.5 3.5 4.5\n#CLK\n G01 0.5\n#ATT\n ATT G01              4  0.5 0.25 -0.25 0.125\n E03 0.5 0.25 -0.25 0.125\n* comment\n-EPHEMERIS/DATA\n%END_ORBEX\n".into(), Box::new(|b| MODES.map(|m| hstr(&shown(orbex::read_orbex(b, m)))).iter().fold(1, |a, x| a ^ x)));
    let cat: antex::AntexCatalog = HashMap::from([("AOAD/M_T        NONE".to_string(), HashMap::from([("G01".to_string(), antex::Pco::new(0.58, -0.37, 91.85)), ("E05".to_string(), antex::Pco::new(1.0, 2.0, -99.99))]))]);
    add("antex", sample(|b| antex::write_antex(b, &cat).unwrap()), Box::new(|b| {
        let r = antex::read_antex(b);
        let mut o = vec![];
        if let Ok(c) = &r {
            let _ = antex::write_antex(&mut o, c);
        }
        r.is_ok() as u64 ^ fnv(&o)
    }));
    let eph = c14::cpf_file(vec![c14::cpf_entry(t(1), [7000.0, -1.5, 0.25]), c14::cpf_entry(t(31), [7001.0, -1.25, 0.5])]);
    add("cpf", sample(|b| cpf::write_cpf(&eph, b).unwrap()), Box::new(|b| {
        let s = text(b);
        let mut h = 1;
        for m in MODES {
            let r = cpf::parse_cpf_with_mode(&s, m);
            let mut o = vec![];
            if let Ok(f) = &r {
                let _ = cpf::write_cpf(f, &mut o);
            }
            h ^= hstr(&shown(r)) ^ fnv(&o);
        }
        h
    }));
    add("crd", "H1 CRD 2 2024 03 01 12\nH2 YARA 7090 5 13 4\nH3 lageos1 1155 8820 0 1\nH4 1 2024 02 29 01 02 03 2024 02 29 02 02 03 0 0 0 0 1 0 2 0\nC0 0 532.0 sys1\n10 43200.5 0.05 sys1 2 2\n11 43200.5 0.05 sys1 2 1 3 4 17 100.0 0.1 -0.2 5.5\n11 86399.9999999 0.0501\n20 43200 801.8 282.1 61\nH8\nH9\n".into(), Box::new(|b| {
        let s = text(b);
        MODES.map(|m| hstr(&shown(crd::parse_crd_with_mode(&s, m)))).iter().fold(1, |a, x| a ^ x)
    }));
    let nv = nav::RinexNavFile { gps: vec![c14::nav_rec(3, t(30), c14::NAV0), c14::nav_rec(32, t(59), c14::NAV0.map(|x| -x))] };
    add("rinex-nav", sample(|b| nav::write_rinex_nav(b, &nv).unwrap()), Box::new(|b| {
        let s = text(b);
        let mut h = 1;
        for m in MODES {
            let r = nav::parse_rinex_nav_with_mode(&s, m);
            let mut o = vec![];
            if let Ok(f) = &r {
                let _ = nav::write_rinex_nav(&mut o, f);
            }
            h ^= hstr(&shown(r)) ^ fnv(&o);
        }
        h
    }));
    add("rinex-nav2", "     2              N: GPS NAV DATA                         RINEX VERSION / TYPE\n                                                            END OF HEADER\n 6 99  9  2 17 51 44.0-.839701388031D-03-.165982783074D-10 .000000000000D+00\n     .910000000000D+02 .934062500000D+02 .116040547840D-08 .162092304801D+00\n     .484101474285D-05 .626740418375D-02 .652112066746D-05 .515365489006D+04\n     .409904000000D+06-.242143869400D-07 .329237003460D+00-.596046447754D-07\n     .111541663136D+01 .326593750000D+03 .206958726335D+01-.638312302555D-08\n     .307155651409D-09 .000000000000D+00 .102500000000D+04 .000000000000D+00\n     .000000000000D+00 .000000000000D+00 .000000000000D+00 .910000000000D+02\n     .406800000000D+06 .000000000000D+00\n".into(), Box::new(|b| {
        let s = text(b);
        MODES.map(|m| hstr(&shown(nav::parse_rinex_nav_with_mode(&s, m)))).iter().fold(1, |a, x| a ^ x)
    }));
    let mut ob = c14::obs_file(&[('G', 3), ('E', 14)], vec![c14::epoch(t(0), &[("G01", vec![(0, 20_000_000.123), (1, -1.5)]), ("E05", vec![(0, 1.0), (13, 2.5)])]), c14::epoch(t(30), &[("G01", vec![(2, 0.25)])])]);
    ob.approx_xyz_m = Some([4_000_000.0, -1.5, 4_000_001.25].map(siderust::qtty::Meters::new));
    ob.interval_s = Some(siderust::qtty::Seconds::new(30.0));
    let mut obs_text = sample(|b| obs::write_rinex_obs(b, &ob).unwrap());
    obs_text.extend(b"> 2024 03 01 00 01 00.0000000  4  1\n                                                            COMMENT\n> 2024 03 01 00 01 30.0000000  0  1\nG01  20000000.123 7\n");
    add("rinex-obs", obs_text, Box::new(|b| {
        let r = obs::read_rinex_obs(b);
        let mut o = vec![];
        if let Ok(f) = &r {
            let _ = obs::write_rinex_obs(&mut o, f);
        }
        hstr(&r.map(|f| f.epochs.len().to_string()).unwrap_or_else(|e| e.to_string())) ^ fnv(&o)
    }));
    let head = format!("{:<60}{}\n{:<20}{:<40}{}\n{:<60}{}\n{:<60}{}\n", "     3.00           O                   D", "RINEX VERSION / TYPE", "PGM", "AGENCY", "PGM / RUN BY / DATE", "TLSB", "MARKER NAME", "", "END OF HEADER");
    add("doris", (head + "> 2024 02 29 03 04 05.500  0  2\nD01 12345.678 678.9\n     1.0 2.0\nD02\n> 1999 12 31 23 59 59.999\nD03 1.0\n").into_bytes(), Box::new(|b| hstr(&shown(doris::read_rinex_doris(b)))));
    let st: Vec<oem::OemState> = (0..3).map(|i| oem::OemState::new(2_460_370.25 + i as f64, [7000.0, -1.5, 0.25 * i as f64], [0.125, 7.5, -1.0])).collect();
    add("oem", {
        let mut b = sample(|b| oem::write_oem(b, &c13::meta0(), &st).unwrap());
        b.extend(b"COVARIANCE_START\nEPOCH = 2024-02-29T12:00:00\n1.0\n0.5 1.0\nCOVARIANCE_STOP\nMETA_START\nOBJECT_NAME = B\nOBJECT_ID = 2\nCENTER_NAME = EARTH\nREF_FRAME = ICRF\nTIME_SYSTEM = UTC\nSTART_TIME = 2024-060T00:00:00Z\nMETA_STOP\nCOMMENT x\n2024-060T00:00:60.5Z 1 2 3 4 5 6 7 8 9\n");
        b
    }, Box::new(|b| {
        let r = oem::read_oem(b);
        let mut o = vec![];
        if let Ok(f) = &r {
            for s in &f.segments {
                let _ = oem::write_oem(&mut o, &s.metadata, &s.states);
                let _ = oem::write_oem_xml(&mut o, &s.metadata, &s.states);
            }
        }
        hstr(&shown(r)) ^ fnv(&o)
    }));
    add("oem-xml", sample(|b| oem::write_oem_xml(b, &c13::meta0(), &st[..2]).unwrap()), Box::new(|b| hstr(&shown(oem::read_oem_xml(b)))));
    add("opm", sample(|b| opm::write_opm(b, &c13::opm_msg()).unwrap()), Box::new(|b| {
        let r = opm::read_opm(b);
        let mut o = vec![];
        if let Ok(f) = &r {
            let _ = opm::write_opm(&mut o, f);
        }
        hstr(&shown(r)) ^ fnv(&o)
    }));
    let ob = |k: tdm::ObservationType, e: &str, v| tdm::ObservationData { obs_type: k, epoch: e.into(), value: v };
    let tm = tdm::TdmMessage { metadata: vec![c13::tmeta(2, "SEQUENTIAL", "1,2,1", "UTC"), c13::tmeta(1, "SEQUENTIAL", "1,2", "TAI")], observations: vec![ob(tdm::ObservationType::Range, "2024-02-29T12:00:00", 7000.5), ob(tdm::ObservationType::Doppler, "2024-02-29T12:00:01", -1.25), ob(tdm::ObservationType::Other("RECEIVE_FREQ".into()), "2024-060T12:00:02.5", 1e9)] };
    add("tdm", sample(|b| tdm::write_tdm(b, &tm).unwrap()), Box::new(|b| {
        let r = tdm::read_tdm(b);
        let mut o = vec![];
        if let Ok(f) = &r {
            let _ = tdm::write_tdm(&mut o, f);
        }
        hstr(&shown(r)) ^ fnv(&o)
    }));
    for (name, a, b) in [("tle", c12::L1, c12::L2), ("tle-edge", c12::M1, c12::M2)] {
        add(name, format!("0 NAME OF IT\n{a}\n{b}\n").into_bytes(), Box::new(|b| {
            let s = text(b);
            let l: Vec<&str> = s.lines().collect();
            let g = |i: usize| l.get(i).copied().unwrap_or("");
            let mut h = 1;
            // the line as it is, and with the check digit made good so that the fields are reached
            let seal = |x: &str| -> String {
                let n = x.char_indices().nth(68).map_or(x.len(), |c| c.0);
                let body = &x[..n];
                format!("{body}{}", tle::compute_tle_checksum(body))
            };
            for (x, y) in [(g(1).to_string(), g(2).to_string()), (seal(g(1)), seal(g(2)))] {
                let _ = tle::validate_tle_checksum(&x);
                for r in [parse_tle(&x, &y), parse_3le(g(0), &x, &y)] {
                    if let Ok(t) = &r {
                        let _ = format_tle(t);
                        let o = Omm::from_tle(t);
                        let _ = (kvn::write(&o).is_ok(), xml::write(&o).is_ok(), json::write(&o).is_ok());
                    }
                    h ^= hstr(&shown(r));
                }
            }
            h
        }));
    }
    let o = c12::omm_of(&parse_tle(c12::L1, c12::L2).expect("sample set"), 0);
    fn omm(r: Result<Omm, tle::TleError>) -> u64 {
        if let Ok(o) = &r {
            let t = o.to_tle();
            let _ = (format_tle(&t).is_ok(), kvn::write(o).is_ok(), xml::write(o).is_ok(), json::write(o).is_ok());
        }
        hstr(&shown(r.map(|o| o.object_name)))
    }
    add("omm-kvn", kvn::write(&o).unwrap().into_bytes(), Box::new(|b| omm(kvn::read(&text(b)))));
    add("omm-xml", xml::write(&o).unwrap().into_bytes(), Box::new(|b| omm(xml::read(&text(b)))));
    add("omm-json", json::write(&o).unwrap().into_bytes(), Box::new(|b| omm(json::read(&text(b)))));
    add("omm-json-list", json::write_many(&[o.clone(), o]).unwrap().into_bytes(), Box::new(|b| match json::read_many(&text(b)) {
        Ok(v) => v.len() as u64 | 1,
        Err(e) => hstr(&e.to_string()),
    }));
    add("eop", "# EARTH ORIENTATION PARAMETER C04\n1962   1   1  37665  -0.012700   0.213000   0.0326338   0.0017230   0.000000   0.000000   0.030000   0.030000\n2024  12  31  60675   0.1 0.2 0.03 0.001 0.0001 -0.0002\n2025   1   1  60676   0.11 0.21 0.031 0.0011 0.0001 -0.0002\n".into(), Box::new(|b| {
        let r = iers::eop::read_eop_c04(b);
        if let Ok(v) = &r {
            for m in v.iter().map(|x| x.mjd) {
                let _ = iers::eop::interpolate(v, m);
            }
        }
        hstr(&shown(r))
    }));
    let mut kernel = b"SCKERN01".to_vec();
    for x in [2u32, 2, 10, 399, 1, 2] {
        kernel.extend(x.to_le_bytes());
    }
    for x in [2451545.0f64, 2451555.5] {
        kernel.extend(x.to_le_bytes());
    }
    kernel.resize(64, 0);
    for i in 0..16 {
        kernel.extend((i as f64 * 0.5 - 3.0).to_le_bytes());
    }
    add("sck", kernel, Box::new(|b| hstr(&shown(sck::parse_sck(b)))));
    add("vgosdb", "# side-car\nsession_code = 24JAN04XA\nstart_epoch=2024-01-04T18:30:00\nstations=GGAO12M, KOKEE12M ,,WETTZ13S\n".into(), Box::new(|b| hstr(&shown(vlbi::vgosdb::read_vgosdb_sidecar(b)))));
    add("csv", "# catalogue\nsource_id,ra,dec,epoch,pmra,pmdec,parallax,radial_velocity,g_mag,bp_mag,rp_mag,quality\n4295806720,44.99,0.005,2016.0,1.5,-2.5,10.0,-15.5,12.0,12.5,11.5,ok\n18446744073709551615,359.999,-89.999,2015.5,,,,,,,,0\n".into(), Box::new(|b| {
        let r = parse_csv_chunk(&text(b));
        if let Ok(v) = &r {
            for x in v {
                for e in [2000.0, 2016.0, -1e300, f64::NAN] {
                    let _ = x.propagate_to(e);
                }
            }
        }
        hstr(&shown(r))
    }));
    for (name, hex) in [("adsb-id", "8D4840D6202CC371C32CE0576098"), ("adsb-pos", "8D40621D58C382D690C8AC2863A7"), ("adsb-speed", "8D485020994409940838175B284F"), ("adsb-air", "8DA05F219B06B6AF189400CBC33F")] {
        add(name, hex.into(), Box::new(|b| {
            let r = adsb::parse_frame(&text(b));
            let mut h = 1;
            if let Ok(f) = &r {
                h ^= hstr(&shown(adsb::decode_identification(f))) ^ hstr(&shown(adsb::decode_airborne_position(f))) ^ hstr(&shown(adsb::decode_airborne_velocity(f)));
                let _ = (f.icao24(), f.type_code(), f.me(), f.downlink_format());
            }
            h ^ hstr(&shown(r))
        }));
    }
    v
}

const TOKENS: [&str; 34] = ["", "0", "-0", "-1", "1", "00", "99", "-99", "60", "61", "13", "366", "1e5", "1e308", "-1e308", "1e309", "1e-320", "NaN", "inf", "-inf", "2147483647", "-2147483648", "4294967296", "9223372036854775807", "-9223372036854775809", "18446744073709551615", "99999999999999999999", "é", "€1", "1.2.3", "1D+05", "+", "-", "\u{0}"];
const CHARS: [&[u8]; 28] = [b" ", b"0", b"9", b"-", b"+", b".", b"E", b"D", b"a", b"Z", b",", b"=", b":", b"<", b">", b"&", b"\"", b"/", b"#", b"*", b"\t", b"\n", b"\r", b"\0", "é".as_bytes(), "€".as_bytes(), "😀".as_bytes(), &[0xff]];

pub fn run(tier: Tier) -> Ctx {
    let mut ctx = Ctx::new("C15", "fault_enumeration", tier, "every truncation, single-character replacement, insertion and deletion (28 characters incl. multi-byte, control and invalid bytes), token replacement (34 tokens), line deletion, repetition, exchange and cut of a valid sample of every format; thorough: pairs of faults");
    ctx.assumptions = vec!["one or two samples per format; each holds every kind of line its reader distinguishes".into()];
    let t = tier == Tier::Thorough;
    let fm = formats();
    let run = |l: &mut Local, f: &Format, kind: &str, key: &str, b: &[u8]| {
        l.case(&format!("{}-{kind}", f.name), key, || {
            let s = Instant::now();
            let h = guard(|| (f.dec)(b)).map_err(|e| format!("{e}\n{}", text(b)))?;
            ensure!(s.elapsed() < Duration::from_secs(30), "took {:?}", s.elapsed());
            Ok(h | 1)
        });
    };
    let mut items: Vec<(usize, usize)> = vec![];
    for (i, f) in fm.iter().enumerate() {
        for p in 0..=f.sample.len() {
            items.push((i, p));
        }
    }
    ctx.par(&items, |l, &(i, p)| {
        let f = &fm[i];
        let s = &f.sample;
        if p == 0 {
            run(l, f, "whole", "", s);
            run(l, f, "whole", "dos", &text(s).replace('\n', "\r\n").into_bytes());
            run(l, f, "whole", "bom", &[&[0xef, 0xbb, 0xbf][..], s].concat());
            run(l, f, "whole", "twice", &[&s[..], s].concat());
        }
        run(l, f, "cut", &p.to_string(), &s[..p]);
        run(l, f, "tail", &p.to_string(), &s[p..]);
        for (k, c) in CHARS.iter().enumerate() {
            run(l, f, "insert", &format!("{p}+{k}"), &[&s[..p], c, &s[p..]].concat());
            if p < s.len() {
                run(l, f, "replace", &format!("{p}:{k}"), &[&s[..p], c, &s[p + 1..]].concat());
                if t {
                    // a second fault within the next columns, and the same fault over a run of columns
                    for d in [1usize, 2, 3, 5, 8, 13, 21] {
                        if p + d < s.len() {
                            for c2 in CHARS.iter().step_by(3) {
                                run(l, f, "replace2", &format!("{p}:{k}+{d}:{:?}", c2), &[&s[..p], c, &s[p + 1..p + d], c2, &s[p + d + 1..]].concat());
                            }
                            run(l, f, "fill", &format!("{p}:{k}+{d}"), &[&s[..p], &c.repeat(d), &s[p + d..]].concat());
                        }
                    }
                }
            }
        }
        for n in [1usize, 2, 3, 8] {
            if p + n <= s.len() {
                run(l, f, "delete", &format!("{p}-{n}"), &[&s[..p], &s[p + n..]].concat());
            }
        }
        // the token that starts here
        let sep = |b: u8| b.is_ascii_whitespace() || b"<>=,:\"-T".contains(&b);
        if p < s.len() && !sep(s[p]) && (p == 0 || sep(s[p - 1])) {
            let e = (p..s.len()).find(|&q| sep(s[q])).unwrap_or(s.len());
            for (k, tok) in TOKENS.iter().enumerate() {
                run(l, f, "token", &format!("{p}={k}"), &[&s[..p], tok.as_bytes(), &s[e..]].concat());
                // keeping the columns of what follows
                let mut w = tok.as_bytes().to_vec();
                w.resize(w.len().max(e - p), b' ');
                w.truncate(e - p);
                run(l, f, "column", &format!("{p}={k}"), &[&s[..p], &w[..], &s[e..]].concat());
                let mut r = vec![b' '; (e - p).saturating_sub(tok.len())];
                r.extend(tok.as_bytes());
                run(l, f, "column-right", &format!("{p}={k}"), &[&s[..p], &r[..], &s[e..]].concat());
            }
        }
    });
    // lines
    let mut items: Vec<(usize, usize)> = vec![];
    for (i, f) in fm.iter().enumerate() {
        for a in 0..f.sample.split(|b| *b == b'\n').count() {
            items.push((i, a));
        }
    }
    ctx.par(&items, |l, &(i, a)| {
        let f = &fm[i];
        let lines: Vec<&[u8]> = f.sample.split(|b| *b == b'\n').collect();
        let join = |v: &[&[u8]]| v.join(&b"\n"[..]);
        for b in 0..lines.len() {
            let mut v = lines.clone();
            v.swap(a, b);
            run(l, f, "swap", &format!("{a}/{b}"), &join(&v));
            let mut v = lines.clone();
            v.insert(b, lines[a]);
            run(l, f, "repeat", &format!("{a}->{b}"), &join(&v));
            if a <= b {
                let mut v = lines.clone();
                v.drain(a..=b);
                run(l, f, "drop", &format!("{a}..{b}"), &join(&v));
                run(l, f, "only", &format!("{a}..{b}"), &join(&lines[a..=b]));
            } else {
                let mut v = lines.clone();
                v.remove(a);
                v.remove(b);
                run(l, f, "drop2", &format!("{a},{b}"), &join(&v));
            }
        }
        // every prefix and suffix of one line among whole others; long and wide lines
        for p in 0..=lines[a].len() {
            let (h, r) = (&lines[a][..p], &lines[a][p..]);
            for (k, x) in [("head", h), ("rest", r)] {
                let mut v = lines.clone();
                v[a] = x;
                run(l, f, k, &format!("{a}@{p}"), &join(&v));
            }
        }
        for (k, n) in [("x", 10_000), ("é", 5_000), (" ", 10_000), ("9", 400), ("1 ", 2_000), ("(", 2_000), ("<a>", 2_000), ("[", 2_000), ("{\"a\":", 2_000)] {
            let long = k.repeat(n);
            for app in [false, true] {
                let mut v = lines.clone();
                let joined = [lines[a], long.as_bytes()].concat();
                v[a] = if app { &joined } else { long.as_bytes() };
                run(l, f, "long", &format!("{a} {k:?} {app}"), &join(&v));
            }
        }
        for n in [1usize, 2, 3, 4, 5, 60, 61, 80] {
            let wide = "é".repeat(n);
            let mut v = lines.clone();
            let joined = [wide.as_bytes(), lines[a]].concat();
            v[a] = &joined;
            run(l, f, "wide", &format!("{a} {n}"), &join(&v));
            // the same number of columns, shifted bytes
            let o = text(lines[a]);
            let rest: String = o.chars().skip(n).collect();
            let joined = wide + &rest;
            let mut v = lines.clone();
            v[a] = joined.as_bytes();
            run(l, f, "wide", &format!("{a} over {n}"), &join(&v));
        }
    });
    // deep nesting and many repetitions
    let mut l = Local::default();
    for f in &fm {
        for (k, n) in [("[", 100_000), ("{\"a\":", 50_000), ("<a>", 50_000), ("(", 100_000), ("\n", 100_000), ("é\n", 50_000)] {
            run(&mut l, f, "nest", &format!("{k:?} {n}"), k.repeat(n).as_bytes());
            run(&mut l, f, "nest", &format!("{k:?} {n} after"), &[&f.sample[..], k.repeat(n).as_bytes()].concat());
        }
        run(&mut l, f, "many", "x500", &f.sample.repeat(500));
    }
    ctx.merge(l);
    ctx
}
