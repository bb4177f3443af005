//! C16: ADS-B frames: parity faults, compact positions over every zone, seam and pole, velocity, altitude, call signs.
use crate::core::*;
use siderust::formats::adsb::cpr::{decode_globally, decode_locally};
use siderust::formats::adsb::{decode_airborne_position, decode_airborne_velocity, decode_altitude, decode_identification, parse_frame};
use std::f64::consts::PI;

const Q: f64 = 131_072.0;

/// bit-serial remainder modulo the Mode S generator, x^24 + ... (0x1FFF409)
fn remainder(bits: &[u8]) -> u32 {
    let mut b: Vec<u8> = bits.to_vec();
    b.extend([0u8; 24]);
    const G: u32 = 0x1FF_F409;
    for i in 0..bits.len() {
        if b[i] == 1 {
            for j in 0..25 {
                b[i + j] ^= ((G >> (24 - j)) & 1) as u8;
            }
        }
    }
    b[bits.len()..].iter().fold(0, |a, x| (a << 1) | *x as u32)
}
fn tobits(v: u64, n: usize) -> Vec<u8> {
    (0..n).rev().map(|i| ((v >> i) & 1) as u8).collect()
}
fn frame(df: u64, icao: u64, me: &[(u64, usize)]) -> Vec<u8> {
    let mut b = tobits(df, 5);
    b.extend(tobits(5, 3));
    b.extend(tobits(icao, 24));
    for &(v, n) in me {
        b.extend(tobits(v, n));
    }
    assert_eq!(b.len(), 88);
    let r = remainder(&b);
    b.extend(tobits(r as u64, 24));
    b
}
fn hex(bits: &[u8], upper: bool) -> String {
    bits.chunks(4).map(|c| {
        let d = c.iter().fold(0u32, |a, x| a * 2 + *x as u32);
        let ch = char::from_digit(d, 16).unwrap();
        if upper { ch.to_ascii_uppercase() } else { ch }
    }).collect()
}
fn transition(n: usize) -> f64 {
    // highest latitude with n longitude zones
    ((1.0 - (PI / 30.0).cos()) / (1.0 - (2.0 * PI / n as f64).cos())).sqrt().min(1.0).acos().to_degrees()
}
fn nl(lat: f64) -> usize {
    let a = lat.abs();
    if a == 87.0 {
        return 2;
    }
    if a > 87.0 {
        return 1;
    }
    (2..=59).rev().find(|&n| a < transition(n)).unwrap_or(1)
}
fn encode(lat: f64, lon: f64, odd: bool) -> (u32, u32, f64, f64) {
    let i = odd as usize;
    let dlat = 360.0 / (60 - i) as f64;
    let j = (lat / dlat).floor();
    let yz = (Q * (lat / dlat - j) + 0.5).floor();
    let rlat = dlat * (yz / Q + j);
    let dlon = 360.0 / (nl(rlat).saturating_sub(i)).max(1) as f64;
    let xz = (Q * (lon / dlon - (lon / dlon).floor()) + 0.5).floor();
    (yz as u32 % 131_072, xz as u32 % 131_072, rlat, dlon)
}
fn dlon(a: f64, b: f64) -> f64 {
    ((a - b + 180.0).rem_euclid(360.0) - 180.0).abs()
}
fn judge(got: (f64, f64), lat: f64, lon: f64, odd: bool, w: f64) -> Result<(), String> {
    let tl = 0.5 * 360.0 / (60.0 - odd as u8 as f64) / Q + 1e-9;
    ensure!(got.0.is_finite() && got.1.is_finite(), "decoded to {got:?}");
    ensure!(got.0.abs() <= 90.0 + 1e-9 && got.1 >= -180.0 - 1e-9 && got.1 <= 180.0 + 1e-9, "outside the globe: {got:?}");
    ensure!((got.0 - lat).abs() <= tl + 1e-9, "latitude {} encoded {lat} (quantum {tl:e})", got.0);
    ensure!(dlon(got.1, lon) <= 0.5 * w / Q + 1e-9, "longitude {} encoded {lon} (quantum {:e})", got.1, 0.5 * w / Q);
    Ok(())
}

pub fn run(tier: Tier) -> Ctx {
    let thorough = tier == Tier::Thorough;
    let mut ctx = Ctx::new("C16", "fault_enumeration", tier,
        "parity: every error of one, two and three flipped bits (thorough: four) in every position of each message, and every burst of up to 12 (thorough 16) bits; positions: every longitude-zone boundary of both hemispheres approached within one to a few quanta, zone interiors, equator, 87 degrees and the poles, crossed with longitudes at the antimeridian, Greenwich and zone edges, both frame orders, still and moving aircraft, full message round trip, local decoding from references across the half-zone range; raw position fields on a lattice; all type codes, altitude codes, call-sign characters and velocity field extremes. Non-trivial: a value was decoded or an error pattern refused.");
    ctx.assumptions = vec!["latitude exactly 87 degrees has two longitude zones (DO-260B); latitudes within 1e-9 degree of another boundary are not judged; moving aircraft move at most 2.9 NM between the two frames".into()];
    let posf = |odd: u64, lat: u64, lon: u64| frame(17, 0x40621D, &[(11, 5), (0, 2), (0, 1), (0xC38, 12), (0, 1), (odd, 1), (lat, 17), (lon, 17)]);
    let msgs: Vec<Vec<u8>> = vec![
        posf(0, 93000, 51372), posf(1, 74158, 50194),
        frame(17, 0x4840D6, &[(4, 5), (0, 3), (11, 6), (12, 6), (13, 6), (49, 6), (48, 6), (50, 6), (51, 6), (32, 6)]),
        frame(18, 0xFFFFFF, &[(19, 5), (1, 3), (0, 5), (1, 1), (9, 10), (1, 1), (160, 10), (0, 1), (1, 1), (14, 9), (0, 10)]),
        frame(17, 0, &[(0, 56)]),
    ];
    // ---- parity ----
    let nb = 112;
    let items: Vec<(usize, usize)> = (0..msgs.len()).flat_map(|m| (0..nb).map(move |i| (m, i))).collect();
    ctx.par(&items, |l, &(m, i)| {
        let mut n = 0;
        let f = &msgs[m];
        let bad = |b: &[u8], what: &dyn Fn() -> String| -> Result<(), String> {
            let r = guard(|| parse_frame(&hex(b, false)).is_err())?;
            ensure!(r, "accepted with {}", what());
            Ok(())
        };
        l.case("parity", &format!("msg {m} errors starting at bit {i}"), || {
            if i == 0 {
                for up in [false, true] {
                    let p = guard(|| parse_frame(&hex(f, up)))?.map_err(|e| format!("valid frame refused: {e}"))?;
                    let num = |a: usize, b: usize| f[a..b].iter().fold(0u32, |x, y| x * 2 + *y as u32);
                    ensure!(p.downlink_format() as u32 == num(0, 5) && p.icao24() == num(8, 32) && p.type_code() as u32 == num(32, 37), "header fields differ");
                    ensure!(p.me().iter().enumerate().all(|(k, x)| *x as u32 == num(32 + 8 * k, 40 + 8 * k)), "payload differs");
                }
            }
            let mut b = f.clone();
            b[i] ^= 1;
            bad(&b, &|| format!("bit {i} flipped"))?;
            for j in i + 1..nb {
                b[j] ^= 1;
                bad(&b, &|| format!("bits {i},{j} flipped"))?;
                for k in j + 1..nb {
                    if m > 1 && !thorough && (k - j) % 5 != 1 {
                        continue;
                    }
                    b[k] ^= 1;
                    bad(&b, &|| format!("bits {i},{j},{k} flipped"))?;
                    if thorough && m == 0 {
                        for q in k + 1..nb {
                            b[q] ^= 1;
                            bad(&b, &|| format!("bits {i},{j},{k},{q} flipped"))?;
                            b[q] ^= 1;
                        }
                    }
                    b[k] ^= 1;
                    n += 1;
                }
                b[j] ^= 1;
            }
            let len = if thorough { 16 } else { 12 };
            let mut b = f.clone();
            for pat in 0u32..1 << (len - 1) {
                for (x, v) in b.iter_mut().skip(i).take(len).enumerate() {
                    *v = f[i + x] ^ if x == 0 { 1 } else { ((pat >> (x - 1)) & 1) as u8 };
                }
                bad(&b, &|| format!("burst {pat:b} at {i}"))?;
            }
            Ok(fnv(&[m as u8, i as u8, (n % 251) as u8]))
        });
    });
    // ---- text faults ----
    let base = hex(&msgs[0], true);
    let items: Vec<usize> = (0..=28).collect();
    ctx.par(&items, |l, &i| {
        l.case("text", &format!("position {i}"), || {
            for r in ["", "0", "g", "G", " ", "é", "ßß", "+", "-", "x", "\u{0}", "😀", "\n"] {
                for del in 0..=3usize {
                    if i + del > 28 {
                        continue;
                    }
                    let t = format!("{}{}{}", &base[..i], r, &base[i + del..]);
                    let ok = guard(|| parse_frame(&t).is_ok())?;
                    ensure!(!ok || t.eq_ignore_ascii_case(&base), "accepted {t:?}");
                }
            }
            Ok(i as u64 | 1)
        });
    });
    // ---- positions ----
    let quantum = 6.0 / Q;
    let mut lats: Vec<f64> = vec![0.0, 87.0, 90.0, 1e-7, 89.999_99, 88.5, 87.000_01, 86.999_99];
    for n in 2..=59 {
        let t = transition(n);
        for k in [-40.0, -2.0, -1.0, -0.6, -0.4, -0.1, 0.1, 0.4, 0.6, 1.0, 2.0, 40.0] {
            lats.push(t + k * quantum);
        }
        lats.push(0.5 * (t + if n == 2 { 90.0 } else { transition(n - 1) }));
    }
    let st = if thorough { 0.25 } else { 1.5 };
    let mut x = 0.0;
    while x < 90.0 {
        lats.push(x);
        lats.push(x + 0.123_456);
        x += st;
    }
    for k in 1..30 {
        lats.push(k as f64 * 360.0 / 59.0); // odd zone edges
        lats.push(k as f64 * 360.0 / 59.0 - 0.3 * quantum);
        lats.push(k as f64 * 6.0 - 0.3 * quantum);
    }
    let mut lats: Vec<f64> = lats.into_iter().filter(|x| *x <= 90.0).flat_map(|x| [x, -x]).collect();
    lats.sort_by(f64::total_cmp);
    lats.dedup();
    let moves: Vec<(f64, f64)> = vec![(0.0, 0.0), (2.9, 0.0), (-2.9, 0.0), (0.0, 2.9), (0.0, -2.9), (2.0, 2.0), (-2.0, -2.0), (0.3, -0.3)];
    ctx.par(&lats, |l, &lat| {
        let z = nl(lat) as f64;
        let mut lons = vec![-180.0, -179.999_999, 179.999_999, 179.999, -179.999, 0.0, 1e-6, -1e-6, 90.0, -90.0, 45.678_9, -123.456_7, 12.5];
        for k in [1.0, 7.0, 30.0] {
            if k < z {
                lons.push((360.0 * k / z + 180.0).rem_euclid(360.0) - 180.0);
                lons.push((360.0 * k / z - 1e-6 + 180.0).rem_euclid(360.0) - 180.0);
                lons.push((360.0 * k / (z - 1.0) + 180.0).rem_euclid(360.0) - 180.0);
            }
        }
        if thorough {
            lons.extend((0..72).map(|k| -180.0 + 5.0 * k as f64 + 0.777));
        }
        for &lon in &lons {
            for (mi, mv) in moves.iter().enumerate() {
                let cosl = lat.to_radians().cos();
                // the odd frame's position
                let lat1 = lat + mv.0 / 60.0;
                if lat1.abs() > 90.0 || (mv.1 != 0.0 && cosl < 0.02) {
                    continue;
                }
                let lon1 = ((lon + mv.1 / 60.0 / cosl.max(0.02)) + 180.0).rem_euclid(360.0) - 180.0;
                let (e, o) = (encode(lat, lon, false), encode(lat1, lon1, true));
                let amb = |r: f64| (2..=59).any(|n| (r.abs() - transition(n)).abs() < 1e-9 && r.abs() != 87.0);
                if amb(e.2) || amb(o.2) {
                    continue;
                }
                l.case("pair", &format!("lat={lat} lon={lon} move={mi}"), || {
                    let fe = guard(|| parse_frame(&hex(&posf(0, e.0 as u64, e.1 as u64), true)).and_then(|f| decode_airborne_position(&f)))?.map_err(|x| format!("even frame: {x}"))?;
                    let fo = guard(|| parse_frame(&hex(&posf(1, o.0 as u64, o.1 as u64), false)).and_then(|f| decode_airborne_position(&f)))?.map_err(|x| format!("odd frame: {x}"))?;
                    ensure!(!fe.cpr_odd && fo.cpr_odd && (fe.cpr_lat, fe.cpr_lon) == (e.0, e.1) && (fo.cpr_lat, fo.cpr_lon) == (o.0, o.1), "fields: {fe:?} {fo:?}");
                    ensure!(fe.encoded_altitude == 0xC38 && fe.surveillance_status == 0 && !fe.single_antenna, "{fe:?}");
                    let same = nl(e.2) == nl(o.2);
                    for latest in [false, true] {
                        let r = guard(|| decode_globally(fe.cpr_lat, fe.cpr_lon, fo.cpr_lat, fo.cpr_lon, latest))?;
                        match r {
                            Err(x) => ensure!(!same, "pair within one latitude zone refused: {x}"),
                            Ok((a, b)) => {
                                ensure!(same, "pair straddling a zone boundary ({} / {} zones) decoded to {a} {b}", nl(e.2), nl(o.2));
                                let (la, lo, w) = if latest { (lat1, lon1, o.3) } else { (lat, lon, e.3) };
                                judge((a.value(), b.value()), la, lo, latest, w).map_err(|x| format!("odd latest={latest}: {x}"))?;
                            }
                        }
                    }
                    if mi == 0 {
                        for (odd, f) in [(false, &e), (true, &o)] {
                            let zone = 360.0 / (60 - odd as usize) as f64;
                            for a in [-0.48, -0.2, 0.0, 0.2, 0.48] {
                                for b in [-0.48, -0.2, 0.0, 0.2, 0.48] {
                                    let (ra, rb) = (lat + a * zone, lon + b * f.3);
                                    if ra.abs() > 90.0 {
                                        continue;
                                    }
                                    for rb in [rb, (rb + 180.0).rem_euclid(360.0) - 180.0] {
                                        let g = guard(|| decode_locally(f.0, f.1, odd, ra, rb))?.map_err(|x| format!("local refused: {x}"))?;
                                        judge((g.0.value(), g.1.value()), lat, lon, odd, f.3).map_err(|x| format!("local odd={odd} from {ra} {rb}: {x}"))?;
                                    }
                                }
                            }
                        }
                    }
                    Ok(hf(&[lat, lon, mi as f64]))
                });
            }
        }
    });
    // ---- any fields ----
    let n = if thorough { 23 } else { 11 };
    let lv: Vec<u32> = (0..n).map(|i| (i * 131_071 / (n - 1)) as u32).collect();
    ctx.par(&lv, |l, &lat0| {
        for &lat1 in &lv {
            l.case("raw", &format!("lat0={lat0} lat1={lat1}"), || {
                let mut k = 0u64;
                for &lon0 in &lv {
                    for &lon1 in &lv {
                        for latest in [false, true] {
                            if let Ok((a, b)) = guard(|| decode_globally(lat0, lon0, lat1, lon1, latest))? {
                                k += 1;
                                ensure!(a.value().abs() <= 90.0 + 1e-9 && b.value().abs() <= 180.0 + 1e-9, "fields {lat0},{lon0},{lat1},{lon1} latest={latest} decoded to {a} {b}");
                            }
                        }
                    }
                }
                Ok(k)
            });
        }
    });
    // ---- type codes ----
    let tcs: Vec<u64> = (0..32).collect();
    ctx.par(&tcs, |l, &tc| {
        l.case("type", &format!("tc={tc}"), || {
            let f = guard(|| parse_frame(&hex(&frame(17, 1, &[(tc, 5), (1, 3), (1, 6), (1, 6), (1, 6), (1, 6), (1, 6), (1, 6), (1, 6), (1, 6)]), true)))?.map_err(|e| e.to_string())?;
            let (a, b, c) = (guard(|| decode_identification(&f).is_ok())?, guard(|| decode_airborne_position(&f).is_ok())?, guard(|| decode_airborne_velocity(&f).is_ok())?);
            ensure!(a == (1..=4).contains(&tc) && b == (9..=18).contains(&tc) && c == (tc == 19), "type code {tc}: identification {a}, position {b}, velocity {c}");
            Ok(tc | 1)
        });
        l.case("format", &format!("df={tc}"), || {
            let ok = guard(|| parse_frame(&hex(&frame(tc, 1, &[(11, 5), (0, 51)]), true)).is_ok())?;
            ensure!(ok == (tc == 17 || tc == 18), "downlink format {tc} accepted: {ok}");
            Ok(tc | 1)
        });
    });
    // ---- altitude ----
    let codes: Vec<u16> = (0..4096).collect();
    ctx.par(&codes, |l, &c| {
        l.case("altitude", &format!("code={c}"), || {
            let a = guard(|| decode_altitude(c))?.map(|x| x.value());
            if c & 0x10 != 0 {
                let n = ((c & 0xFE0) >> 1) | (c & 0xF);
                let want = (n as f64 * 25.0 - 1000.0) * 0.3048;
                ensure!(a.is_some_and(|x| close(x, want, 1e-6)), "got {a:?}, encoded {want}");
                return Ok(c as u64 | 1);
            }
            ensure!(c != 0 || a.is_none(), "no-data code gave {a:?}");
            Ok(0)
        });
    });
    // ---- call signs ----
    let chars: Vec<u64> = (0..64).collect();
    ctx.par(&chars, |l, &c| {
        let ch = match c { 1..=26 => Some((b'A' + c as u8 - 1) as char), 32 => Some(' '), 48..=57 => Some((b'0' + c as u8 - 48) as char), _ => None };
        for pos in 0..8usize {
            for cat in 0..8u64 {
                l.case("callsign", &format!("char={c} at {pos} cat={cat}"), || {
                    let mut me = vec![(1 + (c + pos as u64) % 4, 5), (cat, 3)];
                    let fill = |i: usize| if i > pos && cat % 2 == 1 { (32u64, ' ') } else { (1 + i as u64, (b'A' + i as u8) as char) };
                    me.extend((0..8).map(|i| (if i == pos { c } else { fill(i).0 }, 6)));
                    let f = guard(|| parse_frame(&hex(&frame(17, 77, &me), true)))?.map_err(|e| e.to_string())?;
                    let r = guard(|| decode_identification(&f))?;
                    match (ch, r) {
                        (None, r) => ensure!(r.is_err(), "reserved character decoded: {r:?}"),
                        (Some(_), Err(e)) => return Err(format!("refused: {e}")),
                        (Some(ch), Ok(m)) => {
                            let want: String = (0..8).map(|i| if i == pos { ch } else { fill(i).1 }).collect();
                            ensure!(m.callsign == want.trim_end_matches(' ') && m.category as u64 == cat, "{m:?}, encoded {want:?} category {cat}");
                        }
                    }
                    Ok((c * 64 + pos as u64 * 8 + cat) | 1)
                });
            }
        }
    });
    // ---- velocity ----
    let raws = [0u64, 1, 2, 3, 10, 160, 511, 512, 1022, 1023];
    let vrs = [0u64, 1, 2, 14, 256, 510, 511];
    let items: Vec<(u64, u64, u64)> = (0..8).flat_map(|s| raws.iter().flat_map(move |&a| [0u64, 1].map(|sg| (s, a, sg)))).collect();
    ctx.par(&items, |l, &(sub, ew, sew)| {
        for &ns in &raws {
            for sns in [0u64, 1] {
                for &vr in &vrs {
                    for svr in [0u64, 1] {
                        l.case("velocity", &format!("sub={sub} ew={ew}/{sew} ns={ns}/{sns} vr={vr}/{svr}"), || {
                            let f = guard(|| parse_frame(&hex(&frame(17, 9, &[(19, 5), (sub, 3), (0, 5), (sew, 1), (ew, 10), (sns, 1), (ns, 10), (0, 1), (svr, 1), (vr, 9), (0, 10)]), true)))?.map_err(|e| e.to_string())?;
                            let r = guard(|| decode_airborne_velocity(&f))?;
                            if sub != 1 && sub != 2 {
                                if let Ok(m) = r {
                                    ensure!(sub == 3 || sub == 4, "reserved sub-type decoded: {m:?}");
                                }
                                return Ok(0);
                            }
                            let m = r.map_err(|e| format!("refused: {e}"))?;
                            let s = if sub == 2 { 4.0 } else { 1.0 } * 1852.0 / 3600.0;
                            let v = |raw: u64, neg: u64| (raw as f64 - 1.0) * if neg == 1 { -s } else { s };
                            if ew == 0 || ns == 0 {
                                ensure!(m.ground_speed_mps.is_none() && m.heading.is_none(), "no velocity information in the message, decoded {m:?}");
                            } else {
                                let (x, y) = (v(ew, sew), v(ns, sns));
                                let g = m.ground_speed_mps.map(|x| x.value());
                                ensure!(g.is_some_and(|g| close(g, x.hypot(y), 1e-5 * (1.0 + x.hypot(y)))), "ground speed {g:?}, encoded {}", x.hypot(y));
                                let h = m.heading.map(|x| x.value());
                                if x == 0.0 && y == 0.0 {
                                    ensure!(h.is_none(), "heading {h:?} at rest");
                                } else {
                                    let want = x.atan2(y).to_degrees().rem_euclid(360.0);
                                    ensure!(h.is_some_and(|h| dlon(h, want) < 1e-6 && (0.0..=360.0).contains(&h)), "heading {h:?}, encoded {want}");
                                }
                            }
                            let r = m.vertical_rate_mps.map(|x| x.value());
                            if vr == 0 {
                                ensure!(r.is_none(), "no climb-rate information in the message, decoded {r:?}");
                            } else {
                                let want = (vr as f64 - 1.0) * 64.0 * 0.3048 / 60.0 * if svr == 1 { -1.0 } else { 1.0 };
                                ensure!(r.is_some_and(|r| close(r, want, 1e-6 * (1.0 + want.abs()))), "climb rate {r:?}, encoded {want}");
                            }
                            Ok(hf(&[sub as f64, ew as f64, ns as f64, vr as f64, (sew * 4 + sns * 2 + svr) as f64]))
                        });
                    }
                }
            }
        }
    });
    ctx
}
