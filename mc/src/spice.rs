//! Builders of synthetic SPICE kernels shared by C09, C10 and C11.

#[derive(Clone, Debug)]
pub struct Seg {
    /// The six summary integers without the two word addresses, and the two bounds.
    pub ints: [i32; 4],
    pub start: f64,
    pub end: f64,
    pub words: Vec<f64>,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Layout {
    pub little: bool,
    /// Reserved (comment) records before the first summary record.
    pub reserved: usize,
    /// Summaries per summary record.
    pub per_record: usize,
    /// Whether the summary records lie after the data, in descending order.
    pub tail: bool,
}
pub const PLAIN: Layout = Layout { little: true, reserved: 0, per_record: 25, tail: false };

pub fn daf(locator: &str, segs: &[Seg], lay: Layout) -> Vec<u8> {
    let groups: Vec<&[Seg]> = segs.chunks(lay.per_record).collect();
    let ng = groups.len();
    let data_words: usize = segs.iter().map(|s| s.words.len()).sum();
    let data_recs = data_words.div_ceil(128);
    // record numbers (1-based) of every summary record; each is followed by a name record
    let first = 2 + lay.reserved;
    let rec_of: Vec<usize> = if lay.tail { (0..ng).map(|g| first + data_recs + 2 * (ng - 1 - g)).collect() } else { (0..ng).map(|g| first + 2 * g).collect() };
    let data_rec = if lay.tail { first } else { first + 2 * ng };
    let total = 1 + lay.reserved + 2 * ng + data_recs;
    let mut b = vec![0u8; total * 1024];
    let i32b = |v: i32| if lay.little { v.to_le_bytes() } else { v.to_be_bytes() };
    let f64b = |v: f64| if lay.little { v.to_le_bytes() } else { v.to_be_bytes() };
    b[0..8].copy_from_slice(format!("{locator:<8}").as_bytes());
    b[8..12].copy_from_slice(&i32b(2));
    b[12..16].copy_from_slice(&i32b(6));
    b[16..76].fill(b' ');
    let fward = rec_of.first().copied().unwrap_or(0) as i32;
    b[76..80].copy_from_slice(&i32b(fward));
    b[80..84].copy_from_slice(&i32b(rec_of.last().copied().unwrap_or(0) as i32));
    b[84..88].copy_from_slice(&i32b((data_rec - 1) as i32 * 128 + data_words as i32 + 1));
    b[88..96].copy_from_slice(if lay.little { b"LTL-IEEE" } else { b"BIG-IEEE" });
    let mut word = (data_rec - 1) * 128 + 1;
    for (g, group) in groups.iter().enumerate() {
        let off = (rec_of[g] - 1) * 1024;
        b[off..off + 8].copy_from_slice(&f64b(if g + 1 < ng { rec_of[g + 1] as f64 } else { 0.0 }));
        b[off + 8..off + 16].copy_from_slice(&f64b(if g > 0 { rec_of[g - 1] as f64 } else { 0.0 }));
        b[off + 16..off + 24].copy_from_slice(&f64b(group.len() as f64));
        for (i, s) in group.iter().enumerate() {
            let o = off + 24 + 40 * i;
            b[o..o + 8].copy_from_slice(&f64b(s.start));
            b[o + 8..o + 16].copy_from_slice(&f64b(s.end));
            for (k, v) in s.ints.iter().chain([word as i32, (word + s.words.len() - 1) as i32].iter()).enumerate() {
                b[o + 16 + 4 * k..o + 20 + 4 * k].copy_from_slice(&i32b(*v));
            }
            for w in &s.words {
                b[(word - 1) * 8..word * 8].copy_from_slice(&f64b(*w));
                word += 1;
            }
        }
    }
    b
}

/// Deterministic, irregular coefficients of decreasing size.
pub fn coef(seed: u64, axis: usize, rec: usize, k: usize) -> f64 {
    let mut x = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ (axis as u64 + 1).wrapping_mul(0xBF58_476D_1CE4_E5B9) ^ (rec as u64 + 1).wrapping_mul(0x94D0_49BB_1331_11EB) ^ (k as u64 + 1).wrapping_mul(0xD6E8_FEB8_6659_FD93);
    x ^= x >> 31;
    x = x.wrapping_mul(0x7FB5_D329_728E_A185);
    x ^= x >> 27;
    let u = (x >> 11) as f64 / (1u64 << 53) as f64 - 0.5;
    u * 1.0e5 / (1.0 + (k * k) as f64)
}
pub fn is_spk(target: i32, center: i32, frame: i32, dtype: i32) -> [i32; 4] {
    [target, center, frame, dtype]
}
/// A Type 2 (3 axes) or Type 3 (6 axes) segment; `c(axis, record, k)` gives the coefficients.
#[allow(clippy::too_many_arguments)]
pub fn cheb(target: i32, center: i32, dtype: i32, init: f64, intlen: f64, n: usize, ncoeff: usize, c: &dyn Fn(usize, usize, usize) -> f64) -> Seg {
    let axes = if dtype == 3 { 6 } else { 3 };
    let mut words = vec![];
    for r in 0..n {
        words.push(init + intlen * (r as f64 + 0.5));
        words.push(intlen / 2.0);
        for a in 0..axes {
            words.extend((0..ncoeff).map(|k| c(a, r, k)));
        }
    }
    words.extend([init, intlen, (2 + axes * ncoeff) as f64, n as f64]);
    Seg { ints: is_spk(target, center, 1, dtype), start: init, end: init + intlen * n as f64, words }
}
/// A segment moving linearly: position p + v t, exactly representable in every record.
pub fn linear(target: i32, center: i32, dtype: i32, start: f64, end: f64, n: usize, p: [f64; 3], v: [f64; 3]) -> Seg {
    let intlen = (end - start) / n as f64;
    cheb(target, center, dtype, start, intlen, n, 2, &|a, r, k| {
        let mid = start + intlen * (r as f64 + 0.5);
        match (a < 3, k) {
            (true, 0) => p[a] + v[a] * mid,
            (true, _) => v[a] * intlen / 2.0,
            (false, 0) => v[a - 3],
            (false, _) => 0.0,
        }
    })
}
/// A Type 9 or 13 segment from epochs and states; `descriptor` is the stored word.
pub fn discrete(target: i32, center: i32, dtype: i32, epochs: &[f64], states: &[[f64; 6]], descriptor: f64) -> Seg {
    let mut words: Vec<f64> = states.iter().flatten().copied().collect();
    words.extend(epochs);
    words.extend((1..=(epochs.len() - 1) / 100).map(|d| epochs[d * 100 - 1]));
    words.extend([descriptor, epochs.len() as f64]);
    Seg { ints: is_spk(target, center, 1, dtype), start: epochs[0], end: *epochs.last().unwrap(), words }
}
/// A CK segment in the storage order this library reads: clock, quaternion, ..., count.
pub fn ck(inst: i32, frame: i32, recs: &[(f64, [f64; 4])], start: f64, end: f64) -> Seg {
    let mut words: Vec<f64> = recs.iter().flat_map(|(t, q)| [*t, q[0], q[1], q[2], q[3]]).collect();
    words.push(recs.len() as f64);
    Seg { ints: [inst, frame, 1, 0], start, end, words }
}

/// Value and derivative of a Chebyshev series at x, from cos/sin of multiples of the angle inside the
/// interval and from the three-term recurrences of T and U near its ends.
pub fn cheb_eval(c: &[f64], x: f64) -> (f64, f64) {
    let (mut t0, mut t1, mut u0, mut u1) = (1.0, x, 1.0, 2.0 * x);
    let (mut p, mut d) = (0.0, 0.0);
    for (k, ck) in c.iter().enumerate() {
        let (t, u_prev) = match k {
            0 => (1.0, 0.0),
            1 => (x, 1.0),
            _ => {
                let t2 = 2.0 * x * t1 - t0;
                t0 = t1;
                t1 = t2;
                let up = u1;
                let u2 = 2.0 * x * u1 - u0;
                u0 = u1;
                u1 = u2;
                (t2, up)
            }
        };
        p += ck * t;
        d += ck * k as f64 * u_prev;
    }
    (p, d)
}
/// ET (TDB seconds past J2000) of a TT Julian date: the documented NAIF periodic term.
pub fn et_of_jd(jd: f64) -> f64 {
    let tt = (jd - 2_451_545.0) * 86_400.0;
    let mut et = tt;
    for _ in 0..8 {
        let m = 6.239_996 + 1.990_968_71e-7 * et;
        et = tt + 1.657e-3 * (m + 1.671e-2 * m.sin()).sin();
    }
    et
}
pub fn jd_of_et(et: f64) -> f64 {
    let m = 6.239_996 + 1.990_968_71e-7 * et;
    2_451_545.0 + (et - 1.657e-3 * (m + 1.671e-2 * m.sin()).sin()) / 86_400.0
}
