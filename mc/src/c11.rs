//! C11: malformed SPICE kernels. Every truncation, every single-byte and single-word corruption and every
//! pair of corrupted summary integers of valid binary kernels; every bounded token sequence and every
//! token, character and line fault of valid text kernels. Loading and querying ends in bounded time and
//! memory, and a refused kernel leaves every answer of a loaded pool as it was.
use crate::core::*;
use crate::spice::*;
use siderust::coordinates::centers::Barycentric;
use siderust::ephemeris::{DynEphemeris, RuntimeEphemeris};
use siderust::formats::spice::daf::{Daf, DafRaw};
use siderust::formats::spice::{spk, CkKernel, FrameKernel, IkKernel, LeapSecondKernel, PckKernel, SclkKernel, SpkKernel, SpkKernelSet, TextKernel};
use siderust::pod::spice::SpiceEphemerisProvider;
use siderust::spice::SpiceContext;
use siderust::time::JulianDate;

const CAP: usize = 64 << 20;
const CPU: f64 = 5.0;
const ETS: [f64; 12] = [0.0, -100.0, 50.0, 199.99, 200.0, 1e9, -1e300, 1e300, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 5e-324];

fn limited<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    let t0 = thread_cpu();
    let r = with_alloc_cap(CAP, f);
    let dt = thread_cpu() - t0;
    ensure!(dt < CPU, "took {dt:.1} s of processor time");
    r
}

const LSK: &str = "KPL/LSK\n\\begindata\nDELTET/DELTA_T_A = 32.184\nDELTET/K = 1.657D-3\nDELTET/DELTA_AT = ( 10, @1972-JAN-1\n 11, @1972-JUL-1\n 37, @2017-JAN-1 )\n\\begintext\n";
const FK: &str = "KPL/FK\nnotes\n\\begindata\nFRAME_MINE = -90001\nFRAME_-90001_NAME = 'MINE'\nFRAME_-90001_CLASS = 4\nFRAME_-90001_CLASS_ID = -90001\nFRAME_-90001_CENTER = 399\nTKFRAME_-90001_SPEC = 'MATRIX'\nTKFRAME_-90001_RELATIVE = 'J2000'\nTKFRAME_-90001_MATRIX = ( 0 -1 0\n 1 0 0\n 0 0 1 )\nFRAME_10014_NAME = 'IAU_X'\nFRAME_10014_CLASS = 2\nFRAME_10014_CLASS_ID = 499\nFRAME_10014_CENTER = 499\n\\begintext\n";
const PCK: &str = "KPL/PCK\n\\begindata\nBODY499_POLE_RA = ( 317.6 -0.1 0. )\nBODY499_POLE_DEC = ( 52.8 -0.06 0. )\nBODY499_PM = ( 176.6 350.89 0. )\nBODY499_RADII = ( 3396.19 3396.19 3376.2 )\n\\begintext\n";
const SCLK: &str = "KPL/SCLK\n\\begindata\nSCLK_DATA_TYPE_82 = ( 1 )\nSCLK01_COEFFICIENTS_82 = ( 0.0 0.0 1.0\n 100.0 100.0 2.0 )\n\\begintext\n";
const IK: &str = "KPL/IK\n\\begindata\nINS-82001_FOV_SHAPE = 'RECTANGLE'\nINS-82001_FOV_FRAME = 'MINE'\nINS-82001_BORESIGHT = ( 0 0 1 )\nINS-82001_FOV_REF_ANGLE = 3.5\nINS-82001_FOV_CROSS_ANGLE = 2.5\n\\begintext\n";

fn pool_spk() -> Vec<u8> {
    daf("DAF/SPK", &[linear(3, 0, 2, -100.0, 200.0, 2, [1.0, 2.0, 3.0], [0.1, 0.2, 0.3]), linear(399, 3, 2, -100.0, 200.0, 2, [4.0, 5.0, 6.0], [0.4, 0.5, 0.6])], PLAIN)
}
/// Every answer of the pool, as bits.
fn answers(c: &SpiceContext) -> Vec<u64> {
    let mut v = vec![];
    let mut put = |r: Result<Vec<f64>, String>| match r {
        Ok(x) => v.extend(x.iter().map(|y| y.to_bits())),
        Err(e) => v.push(hstr(&e)),
    };
    for et in [-100.0, 0.0, 150.0, 201.0] {
        for (t, k) in [(3, 0), (399, 0), (10, 0), (301, 399)] {
            put(c.state_naif(t, k, et).map(|s| s.to_vec()).map_err(|e| e.to_string()));
        }
        for (a, b) in [(-90001, 1), (10014, 1), (10014, -90001), (77, 1)] {
            put(c.rotation_naif(a, b, et).map(|m| m.concat()).map_err(|e| e.to_string()));
        }
        put(c.tai_minus_utc(et).map(|x| vec![x]).map_err(|e| e.to_string()));
        put(c.tdb_minus_utc(et - 9e8).map(|x| vec![x]).map_err(|e| e.to_string()));
    }
    let k = c.kernel_set();
    v.extend([k.spk_count() as u64, k.ck_count() as u64, k.has_lsk() as u64, k.fk_kernels().count() as u64, k.pck_text_kernels().count() as u64, k.sclk_kernels().count() as u64, k.ck_kernels().count() as u64]);
    v
}
fn pool() -> SpiceContext {
    let mut c = SpiceContext::new();
    c.load_bytes("s", pool_spk()).unwrap();
    for (n, t) in [("l", LSK), ("f", FK), ("p", PCK), ("c", SCLK), ("i", IK)] {
        c.load_bytes(n, t.as_bytes().to_vec()).unwrap();
    }
    c
}
/// Loads the bytes into a pool that already answers and queries it. Returns whether it was accepted.
fn into_pool(bytes: &[u8], full: &SpiceContext, base: &[u64]) -> Result<bool, String> {
    // an empty pool first: most refusals end here
    let mut c = SpiceContext::new();
    if c.load_bytes("x", bytes.to_vec()).is_err() {
        let a = answers(&c);
        thread_local! { static EMPTY: Vec<u64> = answers(&SpiceContext::new()); }
        ensure!(EMPTY.with(|e| *e == a), "a refused kernel changed an empty pool");
        let mut p = pool();
        ensure!(p.load_bytes("x", bytes.to_vec()).is_err(), "refused by an empty pool but accepted by a loaded one");
        ensure!(answers(&p) == base, "a refused kernel changed the answers of a loaded pool");
        let _ = full;
        return Ok(false);
    }
    answers(&c);
    for et in ETS {
        let _ = (c.state_naif(301, 0, et), c.rotation_naif(-90001, 10014, et), c.rotation_naif(-90002, 1, et), c.tai_minus_utc(et), c.tdb_minus_utc(et));
        for k in c.kernel_set().sclk_kernels() {
            let _ = (k.et_to_sclkdp(et), k.sclkdp_to_et(et));
        }
        for k in c.kernel_set().ck_kernels() {
            let _ = k.rotation(-82000, et);
        }
        for k in c.kernel_set().pck_text_kernels() {
            for b in k.bodies.keys() {
                let _ = c.rotation_naif(*b, 1, et);
            }
        }
        for f in c.kernel_set().fk_kernels() {
            for s in &f.frames {
                let _ = (c.rotation_naif(s.id, 1, et), c.frame_registry().frame_by_name(&s.name));
            }
        }
    }
    Ok(true)
}
/// Offers the bytes to every reader of binary kernels and queries whatever was accepted.
fn binary(bytes: &[u8], full: &SpiceContext, base: &[u64]) -> Outcome {
    limited(|| {
        let mut h = 0u64;
        if let Ok(d) = Daf::parse(bytes) {
            h |= 1;
            let words = bytes.len() / 8;
            for s in d.summaries.iter().take(64) {
                let _ = spk::read_segment(bytes, &d, s);
                for w in [s.start_word, s.end_word].into_iter().filter(|w| (1..=words).contains(w)) {
                    let _ = d.read_f64_at_word(bytes, w);
                }
            }
        }
        if let Ok(d) = DafRaw::parse(bytes.to_vec()) {
            let words = bytes.len() / 8;
            for s in d.raw_summaries.iter().take(64) {
                for w in [s.start_word(), s.end_word()].into_iter().filter(|w| (1..=words).contains(w)) {
                    let _ = d.read_f64_at_word(w);
                }
            }
        }
        if let Ok(k) = SpkKernel::from_bytes(bytes.to_vec()) {
            h |= 2;
            let ids: Vec<(i32, i32)> = k.segments().iter().map(|s| (s.target, s.center)).take(40).collect();
            for et in ETS {
                for (t, c) in ids.iter().copied().chain([(301, 0), (399, 10), (-77, 399)]) {
                    let _ = k.state(t, c, et);
                }
            }
            for s in k.segments().iter().take(40) {
                for et in [s.start_tdb_seconds, s.end_tdb_seconds, (s.start_tdb_seconds + s.end_tdb_seconds) / 2.0] {
                    let _ = k.state(s.target, s.center, et);
                }
            }
            let p = SpiceEphemerisProvider::<Barycentric>::new(k, 0);
            let _ = p.kernel().state(3, p.center_naif_id(), 10.0);
        }
        if let Ok(k) = CkKernel::from_bytes(bytes.to_vec()) {
            h |= 4;
            for s in k.segments().iter().take(40) {
                for t in ETS.into_iter().chain([100.0, 105.0, 130.0]) {
                    let _ = (s.evaluate(t), k.rotation(-82000, t));
                }
            }
        }
        let mut set = SpkKernelSet::default();
        set.push_bytes(&pool_spk()).unwrap();
        let jds = [2_451_545.0, 2_451_545.001, 2_451_545.0023, 2_451_544.9, -1e9, 1e9, 1e15];
        let snap = |s: &SpkKernelSet| -> Vec<String> {
            jds.iter().flat_map(|j| [(399, 0), (3, 399), (301, 10), (10, 0)].map(|(a, b)| format!("{:?}", s.try_geometric_state(a, b, JulianDate::new(*j)).map(|p| [p.x().value(), p.y().value(), p.z().value()])))).collect()
        };
        let before = (set.segment_count(), snap(&set));
        if set.push_bytes(bytes).is_err() {
            ensure!((set.segment_count(), snap(&set)) == before, "a refused kernel changed the kernel set");
        } else {
            h |= 8;
            snap(&set);
        }
        if spk::parse_bsp(bytes).is_ok() {
            h |= 16;
        }
        if let Ok(e) = RuntimeEphemeris::from_bytes(bytes) {
            h |= 32;
            for j in jds {
                let t = JulianDate::new(j);
                let _ = (e.try_sun_barycentric(t), e.try_earth_barycentric(t), e.try_earth_heliocentric(t), e.try_earth_barycentric_velocity(t), e.try_moon_geocentric(t));
            }
        }
        if into_pool(bytes, full, base)? {
            h |= 64;
        }
        Ok(h + 1000)
    })
}

fn seeds() -> Vec<(String, Vec<u8>)> {
    let mut v = vec![];
    let c = |a: usize, r: usize, k: usize| coef(3, a, r, k);
    let eph = |dtype: i32| {
        let mk = |t: i32, ce: i32, s: u64| cheb(t, ce, dtype, -100.0, 150.0, 2, 3, &|a, r, k| coef(s, a, r, k));
        vec![mk(10, 0, 1), mk(3, 0, 2), mk(301, 3, 3), mk(399, 3, 4)]
    };
    let ep: Vec<f64> = (0..6).map(|i| 40.0 * i as f64).collect();
    let st: Vec<[f64; 6]> = (0..6).map(|i| std::array::from_fn(|a| coef(9, a, i, 0))).collect();
    let ep2: Vec<f64> = (0..103).map(|i| 2.0 * i as f64).collect();
    let st2: Vec<[f64; 6]> = (0..103).map(|i| std::array::from_fn(|a| coef(9, a, i, 0))).collect();
    for (ln, lay) in [("le", PLAIN), ("be", Layout { little: false, ..PLAIN }), ("chain", Layout { little: true, reserved: 1, per_record: 1, tail: true })] {
        v.push((format!("type2-{ln}"), daf("DAF/SPK", &[cheb(301, 0, 2, -100.0, 150.0, 2, 3, &c)], lay)));
        v.push((format!("eph2-{ln}"), daf("DAF/SPK", &eph(2), lay)));
        v.push((format!("eph3-{ln}"), daf("DAF/SPK", &eph(3), lay)));
        v.push((format!("type9-{ln}"), daf("DAF/SPK", &[discrete(-77, 399, 9, &ep, &st, 3.0), discrete(399, 0, 13, &ep, &st, 2.0)], lay)));
        v.push((format!("ck-{ln}"), daf("DAF/CK", &[ck(-82000, 1, &[(100.0, [1.0, 0.0, 0.0, 0.0]), (110.0, [0.6, 0.8, 0.0, 0.0])], 100.0, 110.0), ck(-82001, 1, &[(0.0, [1.0, 0.0, 0.0, 0.0])], 0.0, 0.0)], lay)));
    }
    v.push(("type9-directory".into(), daf("DAF/SPK", &[discrete(-77, 399, 9, &ep2, &st2, 3.0)], PLAIN)));
    v
}

fn corrupt(ctx: &Ctx, tier: Tier) {
    let th = tier == Tier::Thorough;
    let seeds = seeds();
    let full = pool();
    let base = answers(&full);
    // the seeds themselves are accepted
    ctx.par(&seeds, |l, (n, b)| {
        l.case("seed", n, || {
            binary(b, &pool(), &base)?;
            let ok = SpkKernel::from_bytes(b.clone()).is_ok() || CkKernel::from_bytes(b.clone()).is_ok();
            ensure!(ok, "a valid kernel is refused");
            Ok(1)
        });
    });
    let mut items = vec![];
    for s in 0..seeds.len() {
        for blk in 0..seeds[s].1.len().div_ceil(64) {
            items.push((s, blk));
        }
    }
    let i32s: [i32; 14] = [0, 1, -1, 2, 3, 6, 9, 13, 100, 101, 127, 128, i32::MAX, i32::MIN];
    let f64s: [f64; 22] = [0.0, -0.0, 1.0, -1.0, 2.0, 3.0, 0.5, 7.0, 25.0, 127.0, 2147483648.0, 4294967297.0, 9007199254740992.0, 1e18, -1e18, 1e300, -1e300, f64::MAX, 5e-324, f64::NAN, f64::INFINITY, f64::NEG_INFINITY];
    ctx.par(&items, |l, &(s, blk)| {
        let (name, b) = &seeds[s];
        let little = !name.ends_with("be");
        let range = blk * 64..(blk * 64 + 64).min(b.len());
        for n in range.clone() {
            l.case("truncate", &format!("{name}-{n}"), || binary(&b[..n], &full, &base));
        }
        let zero = b[range.clone()].iter().all(|x| *x == 0);
        for o in range.clone() {
            // padding between records: one fill value per byte is enough
            for v in [0u8, 1, 0x20, 0x7f, 0x80, 0xff, b[o] ^ 1, b[o].wrapping_add(0x10)] {
                if v == b[o] || (zero && !th && v != 0xff) {
                    continue;
                }
                l.case("byte", &format!("{name}-{o}-{v}"), || {
                    let mut m = b.clone();
                    m[o] = v;
                    binary(&m, &full, &base)
                });
            }
        }
        for o in range.clone().step_by(8) {
            for v in f64s {
                l.case("word", &format!("{name}-{o}-{v:e}"), || {
                    let mut m = b.clone();
                    m[o..o + 8].copy_from_slice(&if little { v.to_le_bytes() } else { v.to_be_bytes() });
                    binary(&m, &full, &base)
                });
            }
        }
        for o in range.step_by(4) {
            if zero && o > 96 && !th {
                continue;
            }
            for v in i32s {
                l.case("integer", &format!("{name}-{o}-{v}"), || {
                    let mut m = b.clone();
                    m[o..o + 4].copy_from_slice(&if little { v.to_le_bytes() } else { v.to_be_bytes() });
                    binary(&m, &full, &base)
                });
            }
        }
    });
    // pairs of faults in the fields that steer reading: file record, record header, first summary, trailer
    let fields = |name: &str, b: &[u8]| -> Vec<(usize, bool)> {
        let little = !name.ends_with("be");
        let ri = |o: usize| i32::from_le_bytes(if little { b[o..o + 4].try_into().unwrap() } else { [b[o + 3], b[o + 2], b[o + 1], b[o]] }) as usize;
        let rec = (ri(76) - 1) * 1024;
        let (sw, ew) = (ri(rec + 24 + 32), ri(rec + 24 + 36));
        let mut v = vec![(8, true), (12, true), (76, true), (rec, false), (rec + 16, false), (rec + 24, false), (rec + 32, false)];
        v.extend((0..6).map(|k| (rec + 40 + 4 * k, true)));
        v.extend([(sw - 1) * 8, (sw) * 8, (ew - 4) * 8, (ew - 3) * 8, (ew - 2) * 8, (ew - 1) * 8].map(|o| (o, false)));
        v
    };
    let mut items = vec![];
    for s in 0..seeds.len() {
        if !th && !seeds[s].0.ends_with("le") && !seeds[s].0.ends_with("ory") {
            continue;
        }
        let f = fields(&seeds[s].0, &seeds[s].1);
        for i in 0..f.len() {
            for j in 0..i {
                items.push((s, f[i], f[j]));
            }
        }
    }
    ctx.par(&items, |l, &(s, fa, fb)| {
        let (name, b) = &seeds[s];
        let little = !name.ends_with("be");
        let put = |m: &mut Vec<u8>, f: (usize, bool), k: usize| {
            if f.1 {
                let v = i32s[k % i32s.len()];
                m[f.0..f.0 + 4].copy_from_slice(&if little { v.to_le_bytes() } else { v.to_be_bytes() });
            } else {
                let v = f64s[k % f64s.len()];
                m[f.0..f.0 + 8].copy_from_slice(&if little { v.to_le_bytes() } else { v.to_be_bytes() });
            }
        };
        for i in 0..if fa.1 { i32s.len() } else { f64s.len() } {
            for j in 0..if fb.1 { i32s.len() } else { f64s.len() } {
                l.case("pair", &format!("{name}-{}-{i}-{}-{j}", fa.0, fb.0), || {
                    let mut m = b.clone();
                    put(&mut m, fa, i);
                    put(&mut m, fb, j);
                    binary(&m, &full, &base)
                });
            }
        }
    });
}

fn text(src: &[u8], full: &SpiceContext, base: &[u64]) -> Outcome {
    limited(|| {
        let mut h = 0;
        if let Ok(s) = std::str::from_utf8(src) {
            if let Ok(t) = TextKernel::parse(s) {
                h |= 1;
                for k in t.data.keys() {
                    let _ = (t.get(k), t.get_f64_array(k), t.get_i64_array(k));
                }
            }
            if let Ok(k) = LeapSecondKernel::from_text(s) {
                h |= 2;
                for e in ETS {
                    let _ = (k.tai_minus_utc_at(e), k.tdb_minus_utc_at(e));
                }
            }
            if let Ok(k) = FrameKernel::from_text(s) {
                h |= 4;
                let _ = (k.frame_by_id(-90001), k.frame_by_name("mine"));
            }
            if let Ok(k) = PckKernel::from_text(s) {
                h |= 8;
                for b in k.bodies.keys() {
                    let _ = k.body(*b);
                }
            }
            if let Ok(v) = SclkKernel::from_text(s) {
                h |= 16;
                for k in v {
                    for e in ETS {
                        let _ = (k.et_to_sclkdp(e), k.sclkdp_to_et(e));
                    }
                }
            }
            if let Ok(k) = IkKernel::from_text(s) {
                h |= 32;
                let _ = k.instrument(-82001);
            }
        }
        if into_pool(src, full, base)? {
            h |= 64;
        }
        Ok(h + 2000)
    })
}

/// Every sequence of tokens after `\begindata`.
fn tokens(ctx: &Ctx, tier: Tier) {
    const T: [&str; 20] = [
        "\n\\begindata\n", "\n\\begintext\n", "DELTET/DELTA_AT", "BODY9_POLE_RA", "FRAME_7_NAME", "=", "+=", "(", ")", ",", "'", "\"", "1", "-1.5D2", "@1972-JAN-1", "/*", "*/", "\n", "'T'", "\u{e9}",
    ];
    let len = if tier == Tier::Thorough { 5 } else { 4 };
    let pre = product(&[T.len(), T.len()]);
    let rest = sequences(T.len(), len - 2);
    ctx.par(&pre, |l, p| {
        for head in std::iter::once(&vec![]).chain(rest.iter().filter(|r| r.len() == len - 3)) {
            let tails: Vec<&Vec<usize>> = if head.is_empty() { rest.iter().filter(|r| r.len() < len - 3).collect() } else { rest.iter().filter(|r| r.len() <= 1).collect() };
            l.case("tokens", &format!("{p:?}-{head:?}"), || {
                let mut h = 1u64;
                for t in &tails {
                    for sep in ["", " "] {
                        let s: String = std::iter::once("\\begindata\n").chain(p.iter().chain(head).chain(t.iter()).flat_map(|&i| [T[i], sep])).collect();
                        match guard(|| limited(|| {
                            let k = TextKernel::parse(&s);
                            if let Ok(k) = &k {
                                for key in k.data.keys() {
                                    let _ = (k.get_f64_array(key), k.get_i64_array(key));
                                }
                                let _ = (LeapSecondKernel::from_text(&s), FrameKernel::from_text(&s), PckKernel::from_text(&s), SclkKernel::from_text(&s), IkKernel::from_text(&s));
                            }
                            let mut c = SpiceContext::new();
                            let ok = c.load_bytes("x", s.clone().into_bytes()).is_ok();
                            ensure!(!ok || k.is_ok(), "a text kernel that does not parse is loaded");
                            if ok {
                                let _ = (c.rotation_naif(7, 1, 0.0), c.tai_minus_utc(0.0));
                            } else {
                                let n = c.kernel_set();
                                ensure!(!n.has_lsk() && n.fk_kernels().count() + n.pck_text_kernels().count() + n.sclk_kernels().count() == 0, "a refused kernel is in the pool");
                            }
                            Ok(ok as u64 + 1)
                        })) {
                            Ok(Ok(v)) => h = h.wrapping_mul(31).wrapping_add(v),
                            Ok(Err(e)) | Err(e) => return Err(format!("{s:?}: {e}")),
                        }
                    }
                }
                Ok(h | 1)
            });
        }
    });
    ctx.note("token_alphabet", T.len() as u64);
    ctx.note("token_depth", len as u64);
}

fn mutate_text(ctx: &Ctx, tier: Tier) {
    let th = tier == Tier::Thorough;
    let all = format!("{LSK}{FK}{PCK}{SCLK}{IK}");
    let kernels = [("lsk", LSK), ("fk", FK), ("pck", PCK), ("sclk", SCLK), ("ik", IK), ("all", all.as_str())];
    let full = pool();
    let base = answers(&full);
    let hostile: Vec<String> = [
        "", "(", ")", "()", "((", "'", "\"", "''", "=", "+=", "== 1", "1e999", "-1e999", "1E+", "-", "+", ".", "D", "1D", "99999999999999999999", "-99999999999999999999", "9223372036854775807", "2147483648", "nan", "inf", "-inf", "NaN", "@", "@1972", "@1972-", "@1972-JAN", "@1972-FOO-1", "@99999999-JAN-1", "@-1-JAN-1", "@1972-JAN-99999999999", "@1972-JAN-0", "@2147483647-DEC-31", "@-100000-JAN-1", "@100000-DEC-31", "'J2000'", "'MINE'", "'IAU_X'", "-90001", "10014", "1", "0", "3", "5", "6", "\u{e9}", "\u{0}", "\\begindata", "\\begintext", "/*", "*/", "/*/", "( 1 ( 2 ( 3 ) ) )", "(,)", ",", "'\u{1F600}'", "1_000", "0x10", "1 2",
    ].iter().map(|s| s.to_string()).collect();
    let mut items = vec![];
    for k in 0..kernels.len() {
        for part in 0..16 {
            items.push((k, part));
        }
    }
    ctx.par(&items, |l, &(k, part)| {
        let (name, src) = kernels[k];
        let mine = |i: usize| i % 16 == part;
        // tokens: maximal runs without blanks
        let mut toks = vec![];
        let mut it = src.char_indices().peekable();
        while let Some((i, c)) = it.next() {
            if c.is_whitespace() {
                continue;
            }
            let mut e = i + c.len_utf8();
            while let Some(&(j, d)) = it.peek() {
                if d.is_whitespace() {
                    break;
                }
                e = j + d.len_utf8();
                it.next();
            }
            toks.push((i, e));
        }
        for (n, &(a, b)) in toks.iter().enumerate().filter(|(n, _)| mine(*n)) {
            for (m, h) in hostile.iter().enumerate() {
                l.case("text-token", &format!("{name}-{n}-{m}"), || text(format!("{}{h}{}", &src[..a], &src[b..]).as_bytes(), &full, &base));
                l.case("text-insert", &format!("{name}-{n}-{m}"), || text(format!("{}{h} {}", &src[..a], &src[a..]).as_bytes(), &full, &base));
            }
            // another token of the same file in its place
            for (m, &(c, d)) in toks.iter().enumerate() {
                if th || name != "all" {
                    l.case("text-exchange", &format!("{name}-{n}-{m}"), || text(format!("{}{}{}", &src[..a], &src[c..d], &src[b..]).as_bytes(), &full, &base));
                }
            }
        }
        for o in (0..src.len()).filter(|o| mine(*o)) {
            l.case("text-truncate", &format!("{name}-{o}"), || text(&src.as_bytes()[..o], &full, &base));
            for (m, r) in [&b""[..], b"(", b")", b"'", b"\"", b"=", b" ", b"\n", b"9", b"-", b"\\", b"\xc3\xa9", b"\xff", b"\0", b"/*", b"*/", b"\r"].into_iter().enumerate() {
                if !th && name == "all" && m > 4 {
                    continue;
                }
                l.case("text-char", &format!("{name}-{o}-{m}"), || {
                    let mut v = src.as_bytes()[..o].to_vec();
                    v.extend_from_slice(r);
                    v.extend_from_slice(&src.as_bytes()[o + 1..]);
                    text(&v, &full, &base)
                });
            }
        }
        let lines: Vec<&str> = src.lines().collect();
        for i in (0..lines.len()).filter(|i| mine(*i)) {
            l.case("text-line-drop", &format!("{name}-{i}"), || text(lines.iter().enumerate().filter(|(j, _)| *j != i).map(|x| *x.1).collect::<Vec<_>>().join("\n").as_bytes(), &full, &base));
            for j in 0..lines.len() {
                l.case("text-line-move", &format!("{name}-{i}-{j}"), || {
                    let mut v = lines.clone();
                    v.swap(i, j);
                    text(v.join("\n").as_bytes(), &full, &base)?;
                    let mut v = lines.clone();
                    v.insert(j, lines[i]);
                    text(v.join("\n").as_bytes(), &full, &base)
                });
            }
        }
    });
    // sizes: nesting depth, statement length, many statements
    let mut items: Vec<(u8, usize)> = vec![];
    for d in (1..130).chain([1000, 10_000, 100_000, 1_000_000]) {
        items.push((0, d));
        items.push((1, d));
        items.push((2, d));
    }
    for n in [1000, 4000] {
        items.extend([(3, n), (4, n), (5, n), (6, n), (7, n)]);
    }
    ctx.par(&items, |l, &(kind, n)| {
        l.case("text-size", &format!("{kind}-{n}"), || {
            let s = match kind {
                0 => format!("\\begindata\nBODY9_POLE_RA = {}1{}\n", "(".repeat(n), ")".repeat(n)),
                1 => format!("\\begindata\nBODY9_POLE_RA = {}\n", "(".repeat(n)),
                2 => format!("\\begindata\nBODY9_POLE_RA = 1 {}\n", ")".repeat(n)),
                3 => format!("\\begindata\nSCLK01_COEFFICIENTS_82 = (\n{})\n", "1 2 3\n".repeat(n)),
                4 => format!("\\begindata\n{}", "BODY9_POLE_RA += 1\n".repeat(n)),
                5 => (0..n).fold("\\begindata\n".to_string(), |s, i| s + &format!("BODY{i}_RADII = ( 1 2 3 )\n")),
                6 => (0..n).fold("\\begindata\n".to_string(), |s, i| {
                    let rel = if i == 0 { "J2000".into() } else { format!("F{}", i - 1) };
                    s + &format!("FRAME_{i}_NAME = 'F{i}'\nFRAME_{i}_CLASS = 4\nFRAME_{i}_CLASS_ID = {i}\nFRAME_{i}_CENTER = 0\nTKFRAME_{i}_SPEC = 'MATRIX'\nTKFRAME_{i}_RELATIVE = '{rel}'\nTKFRAME_{i}_MATRIX = ( 1 0 0 0 1 0 0 0 1 )\n")
                }),
                _ => format!("\\begindata\nK = {}\n", "/* x */".repeat(n)),
            };
            if kind == 6 {
                return limited(|| {
                    let mut c = SpiceContext::new();
                    let _ = c.load_bytes("x", s.into_bytes());
                    let _ = c.rotation_naif(n as i32 - 1, 1, 0.0);
                    Ok(1)
                });
            }
            text(s.as_bytes(), &full, &base)
        });
    });
    // frames defined through each other: every assignment of relatives among four frames
    let names = ["J2000", "F1", "F2", "F3", "F4", "NONE"];
    ctx.par(&product(&[6, 6, 6, 6]), |l, p| {
        l.case("frame-graph", &format!("{p:?}"), || {
            let mut s = "\\begindata\n".to_string();
            for (i, r) in p.iter().enumerate() {
                let id = i + 11;
                s += &format!("FRAME_{id}_NAME = 'F{}'\nFRAME_{id}_CLASS = 4\nFRAME_{id}_CLASS_ID = {id}\nFRAME_{id}_CENTER = 0\nTKFRAME_{id}_SPEC = 'MATRIX'\nTKFRAME_{id}_RELATIVE = '{}'\nTKFRAME_{id}_MATRIX = ( 0 1 0 0 0 1 1 0 0 )\n", i + 1, names[*r]);
            }
            limited(|| {
                let mut c = SpiceContext::new();
                if c.load_bytes("x", s.into_bytes()).is_err() {
                    return Ok(1);
                }
                let mut h = 2;
                for i in 0..4usize {
                    let (mut at, mut depth) = (i + 1, 0);
                    while (1..5).contains(&at) && depth < 6 {
                        at = p[at - 1];
                        depth += 1;
                    }
                    let r = c.rotation_naif(i as i32 + 11, 1, 0.0);
                    ensure!(r.is_ok() == (at == 0), "frame F{} reaches J2000: {}, answer {r:?}", i + 1, at == 0);
                    h = h * 2 + r.is_ok() as u64;
                }
                Ok(h)
            })
        });
    });
}

pub fn run(tier: Tier) -> Ctx {
    let mut ctx = Ctx::new("C11", "fault_enumeration", tier,
        "sixteen valid binary kernels (types 2, 3, 9, 13, a directory, CK; little- and big-endian, chained records): every truncation, every byte set to 8 values, every 8-byte word set to 22 values, every 4-byte integer set to 14 values, every pair of faults in the 19 steering fields; text kernels: every token sequence up to the stated depth over a 20-token alphabet, every token replaced, preceded and exchanged, every character replaced 17 ways, every truncation, every line dropped, swapped and duplicated, nesting depths, long statements and every relation graph of four frames. Every reader loads every input and is queried at twelve epochs including NaN and infinities, with 64 MB per allocation and 5 s of processor time as limits; a pool and a kernel set loaded beforehand answer bit for bit as before after a refusal. Non-trivial: every case.");
    ctx.assumptions = vec!["query answers of damaged but accepted kernels are not judged, only their termination".into()];
    corrupt(&ctx, tier);
    mutate_text(&ctx, tier);
    tokens(&ctx, tier);
    ctx
}
