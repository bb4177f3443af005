//! C23: run products. Every recording order, every message length, every small sample, every record
//! sequence and every crash point of the writers, on the real code against independent definitions.
use crate::core::*;
use siderust::astro::dynamics::state::{SpacecraftProperties, SpacecraftState};
use siderust::astro::dynamics::{OrbitState, Position, Velocity};
use siderust::checksum;
use siderust::coordinates::frames::GCRS;
use siderust::formats::ccsds::oem::read_oem;
use siderust::formats::igs::sp3::read_sp3;
use siderust::pod::force::registry::ForceModelRegistry;
use siderust::pod::force::ThrustArcConfig;
use siderust::pod::problem::arc::{ArcDefinition, ArcId};
use siderust::pod::problem::covariance::{CovarianceError, ParameterCovariance};
use siderust::pod::problem::parameter::{Parameter, ParameterKind, ParameterOrdering};
use siderust::pod::product::manifest::ManifestWriter;
use siderust::pod::product::naming::*;
use siderust::pod::product::orbit::*;
use siderust::pod::product::qc_json::{write_qc_json, QcDocument};
use siderust::pod::product::residuals_csv::{ResidualCsvWriter, ResidualRecord};
use siderust::pod::product::residuals_parquet::ResidualParquetWriter;
use siderust::pod::qc::orbit_compare::{rtn_diff, rtn_summary, RtnDiff};
use siderust::pod::qc::residuals::{ResidualStats, ResidualsByGroup};
use siderust::pod::qc::slr_validation::SlrValidationReport;
use siderust::pod::run::dataset::DatasetRef;
use siderust::pod::run::manifest::RunManifest;
use siderust::time::JulianDate;
use std::cell::RefCell;
use std::io::Write;
use std::rc::Rc;

// ---------------------------------------------------------------- SHA-256 from its definition
/// Constants derived as FIPS 180-4 defines them: fractional parts of roots of the first primes.
struct Sha {
    k: [u32; 64],
    h: [u32; 8],
}
fn frac_root(p: u128, cube: bool) -> u32 {
    // floor(p^(1/n) * 2^32), by bisection over exact integers.
    let (mut lo, mut hi) = (0u128, 1u128 << 42);
    let ok = |x: u128| if cube { x * x * x <= p << 96 } else { x * x <= p << 64 };
    while lo + 1 < hi {
        let m = (lo + hi) / 2;
        if ok(m) {
            lo = m
        } else {
            hi = m
        }
    }
    lo as u32
}
impl Sha {
    fn new() -> Self {
        let primes: Vec<u128> = (2u128..400).filter(|n| (2..*n).all(|d| n % d != 0)).take(64).collect();
        let mut s = Sha { k: [0; 64], h: [0; 8] };
        for i in 0..64 {
            s.k[i] = frac_root(primes[i], true);
        }
        for i in 0..8 {
            s.h[i] = frac_root(primes[i], false);
        }
        s
    }
    fn digest(&self, msg: &[u8]) -> [u8; 32] {
        let mut m = msg.to_vec();
        m.push(0x80);
        while m.len() % 64 != 56 {
            m.push(0);
        }
        m.extend_from_slice(&((msg.len() as u64) * 8).to_be_bytes());
        let mut h = self.h;
        for block in m.chunks(64) {
            let mut w = [0u32; 64];
            for t in 0..16 {
                w[t] = u32::from_be_bytes(block[4 * t..4 * t + 4].try_into().unwrap());
            }
            for t in 16..64 {
                let a = w[t - 15].rotate_right(7) ^ w[t - 15].rotate_right(18) ^ (w[t - 15] >> 3);
                let b = w[t - 2].rotate_right(17) ^ w[t - 2].rotate_right(19) ^ (w[t - 2] >> 10);
                w[t] = w[t - 16].wrapping_add(a).wrapping_add(w[t - 7]).wrapping_add(b);
            }
            let mut v = h;
            for t in 0..64 {
                let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
                let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
                let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(self.k[t]).wrapping_add(w[t]);
                let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
                let mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
                let t2 = s0.wrapping_add(mj);
                v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
            }
            for i in 0..8 {
                h[i] = h[i].wrapping_add(v[i]);
            }
        }
        let mut out = [0; 32];
        for i in 0..8 {
            out[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
        }
        out
    }
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

struct Scratch(std::path::PathBuf);
impl Scratch {
    fn new(tag: &str) -> Self {
        let p = std::env::temp_dir().join(format!("mc-c23-{}-{tag}", std::process::id()));
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn digests(ctx: &Ctx) {
    let sha = Sha::new();
    let maxlen = ctx.pick(700usize, 4400);
    let fixed: &[(&[u8], &str)] = &[
        (b"", "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855"),
        (b"abc", "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad"),
        (
            b"abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq",
            "248d6a61d20638b8e5c026930c3e6039a33ce45964ff2167f6ecedd419db06c1",
        ),
    ];
    let mut l = Local::default();
    for (m, want) in fixed {
        l.case("digest", &format!("published,len={}", m.len()), || {
            let a = hex(&sha.digest(m));
            ensure!(a == *want, "oracle disagrees with the published digest");
            ensure!(checksum::to_hex(&checksum::sha256(m)) == *want, "sha256 differs from the published digest");
            Ok(hstr(&a))
        });
    }
    ctx.merge(l);
    let lens: Vec<usize> = (0..=maxlen).collect();
    let dir = Scratch::new("hash");
    ctx.par(&lens, |l, &n| {
        let pats: [(&str, Vec<u8>); 4] = [
            ("zeros", vec![0; n]),
            ("ones", vec![0xff; n]),
            ("ramp", (0..n).map(|i| (i % 251) as u8).collect()),
            ("mixed", (0..n).map(|i| (i as u32).wrapping_mul(2654435761).rotate_left(9) as u8).collect()),
        ];
        for (name, data) in &pats {
            l.case("digest", &format!("{name},len={n}"), || {
                let want = sha.digest(data);
                let got = checksum::sha256(data);
                ensure!(got == want, "digest {} instead of {}", hex(&got), hex(&want));
                let text = checksum::to_hex(&got);
                ensure!(text == hex(&want), "to_hex gives {text}");
                ensure!(checksum::hex32(&text) == want, "hex32 does not undo to_hex");
                let d = DatasetRef::from_bytes("a/b.dat", "kind", data);
                ensure!(d.sha256 == text, "dataset digest {} instead of {text}", d.sha256);
                ensure!(d.bytes == n as u64 && d.kind == "kind" && d.path == std::path::Path::new("a/b.dat"), "dataset fields {d:?}");
                Ok(hstr(&text))
            });
        }
        // The file route reads the same bytes (around the block and buffer edges).
        if n <= 130 || n % 64 < 2 || n % 64 > 54 {
            l.case("digest-file", &format!("len={n}"), || {
                let p = dir.0.join(format!("f{n}"));
                std::fs::write(&p, &pats[2].1).map_err(|e| e.to_string())?;
                let d = DatasetRef::from_file(&p, "k");
                std::fs::remove_file(&p).map_err(|e| e.to_string())?;
                let d = d.map_err(|e| format!("from_file: {e}"))?;
                ensure!(d == DatasetRef::from_bytes(&p, "k", &pats[2].1), "file and bytes differ: {d:?}");
                Ok(hstr(&d.sha256))
            });
        }
    });
    let mut l = Local::default();
    for n in [8191usize, 8192, 8193, 65535, 65536, 65537, 1 << 20, (1 << 20) + 55] {
        l.case("digest-file", &format!("long={n}"), || {
            let data: Vec<u8> = (0..n).map(|i| (i * 7 + i / 4096) as u8).collect();
            let p = dir.0.join(format!("long{n}"));
            std::fs::write(&p, &data).map_err(|e| e.to_string())?;
            let d = DatasetRef::from_file(&p, "k").map_err(|e| e.to_string())?;
            let want = hex(&sha.digest(&data));
            ensure!(d.sha256 == want && d.bytes == n as u64, "file digest {d:?} instead of {want}");
            ensure!(checksum::to_hex(&checksum::sha256(&data)) == want, "const digest differs");
            Ok(hstr(&want))
        });
    }
    l.case("digest-file", "missing", || {
        ensure!(DatasetRef::from_file(dir.0.join("absent"), "k").is_err(), "a missing file was hashed");
        Ok(1)
    });
    // A pin accepts exactly its own digest.
    let want = sha.digest(b"pinned");
    for bit in 0..256usize {
        l.case("digest-pin", &format!("bit={bit}"), || {
            let mut other = want;
            other[bit / 8] ^= 1 << (bit % 8);
            ensure!(guard(|| checksum::assert_sha256_eq("pinned", b"pinned", &checksum::to_hex(&other))).is_err(), "a different digest was accepted");
            ensure!(guard(|| checksum::assert_sha256_eq("pinned", b"pinned", &checksum::to_hex(&want))).is_ok(), "the right digest was refused");
            Ok(bit as u64 + 1)
        });
    }
    ctx.merge(l);
}

// ---------------------------------------------------------------- manifests
fn pool() -> Vec<DatasetRef> {
    let d = |kind: &str, path: &str, data: &[u8]| DatasetRef::from_bytes(path, kind, data);
    vec![
        d("sp3", "/in/a", b"1"),
        d("sp3", "/in/b", b"1"),
        d("clk", "/in/a", b"1"),
        d("sp3", "/in/a", b"22"), // same kind and path, other content
        d("sp3", "/in/B", b""),
        d("sp", "3/in/a", b"x\"y\\"),
    ]
}
fn multisets(k: usize, size: usize) -> Vec<Vec<usize>> {
    let mut out: Vec<Vec<usize>> = vec![vec![]];
    let mut last: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..size {
        let mut next = vec![];
        for m in &last {
            for i in m.last().copied().unwrap_or(0)..k {
                let mut v = m.clone();
                v.push(i);
                next.push(v);
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}
fn manifest(inputs: Vec<DatasetRef>, outputs: Vec<DatasetRef>) -> RunManifest {
    RunManifest {
        run_id: "run \u{e9}\n1".into(),
        tool_version: "siderust test".into(),
        config_sha256: "0".repeat(64),
        inputs,
        outputs,
        started_at: "2026-05-11T22:00:00Z".into(),
        finished_at: "2026-05-11T22:00:01Z".into(),
    }
}
fn manifests(ctx: &Ctx) {
    let pool = pool();
    let size = ctx.pick(4usize, 5);
    let sets = multisets(pool.len(), size);
    ctx.par(&sets, |l, set| {
        let items: Vec<DatasetRef> = set.iter().map(|&i| pool[i].clone()).collect();
        for side in ["inputs", "outputs", "both"] {
            l.case("manifest", &format!("{side}={set:?}"), || {
                let mut first: Option<String> = None;
                let mut n = 0u64;
                for perm in permutations(items.len()) {
                    let v: Vec<DatasetRef> = perm.iter().map(|&i| items[i].clone()).collect();
                    let mut rev = v.clone();
                    rev.reverse();
                    let m = match side {
                        "inputs" => manifest(v, vec![pool[0].clone()]),
                        "outputs" => manifest(vec![pool[2].clone()], v),
                        _ => manifest(v, rev),
                    };
                    let before = m.clone();
                    let json = m.to_json_pretty().map_err(|e| e.to_string())?;
                    ensure!(m == before, "serialising changed the manifest");
                    match &first {
                        None => first = Some(json.clone()),
                        Some(f) => ensure!(*f == json, "recording order {perm:?} gives different bytes"),
                    }
                    n += 1;
                    let mut canon = m.clone();
                    canon.canonicalize();
                    let back: RunManifest = serde_json::from_str(&json).map_err(|e| e.to_string())?;
                    ensure!(back == canon, "read back {back:?} instead of {canon:?}");
                    let mut twice = canon.clone();
                    twice.canonicalize();
                    ensure!(twice == canon, "canonical order is not stable");
                    let multi = |v: &[DatasetRef]| {
                        let mut t: Vec<String> = v.iter().map(|d| format!("{d:?}")).collect();
                        t.sort();
                        t
                    };
                    ensure!(multi(&canon.inputs) == multi(&m.inputs) && multi(&canon.outputs) == multi(&m.outputs), "entries lost or moved");
                    for list in [&canon.inputs, &canon.outputs] {
                        ensure!(list.windows(2).all(|w| (&w[0].kind, &w[0].path) <= (&w[1].kind, &w[1].path)), "not sorted by (kind, path)");
                    }
                    ensure!((canon.run_id, canon.tool_version, canon.config_sha256, canon.started_at, canon.finished_at) == (before.run_id, before.tool_version, before.config_sha256, before.started_at, before.finished_at), "run fields changed");
                    let mut buf = Vec::new();
                    ManifestWriter::write(&mut buf, &m).map_err(|e| e.to_string())?;
                    ensure!(buf == format!("{json}\n").into_bytes(), "writer bytes differ from the JSON");
                }
                Ok(hstr(&first.unwrap()) ^ n)
            });
        }
    });
}

// ---------------------------------------------------------------- statistics
struct Def {
    mean: f64,
    std: f64,
    rms: f64,
    min: f64,
    max: f64,
}
/// The definitions, on deviations from the first value (exact for the grids used).
fn define(v: &[f64]) -> Def {
    let n = v.len() as f64;
    if v.is_empty() {
        return Def { mean: 0.0, std: 0.0, rms: 0.0, min: 0.0, max: 0.0 };
    }
    let s = v[0];
    let d: Vec<f64> = v.iter().map(|x| x - s).collect();
    let md = d.iter().sum::<f64>() / n;
    let var = d.iter().map(|x| (x - md) * (x - md)).sum::<f64>();
    Def {
        mean: s + md,
        std: if v.len() > 1 { (var / (n - 1.0)).sqrt() } else { 0.0 },
        rms: (v.iter().map(|x| x * x).sum::<f64>() / n).sqrt(),
        min: v.iter().cloned().fold(f64::INFINITY, f64::min),
        max: v.iter().cloned().fold(f64::NEG_INFINITY, f64::max),
    }
}
fn agree(s: &ResidualStats, v: &[f64]) -> Result<(), String> {
    let d = define(v);
    let scale = v.iter().fold(0.0f64, |a, x| a.max(x.abs()));
    ensure!(s.n == v.len(), "n = {} for {} values", s.n, v.len());
    ensure!(s.min == d.min && s.max == d.max, "extremes {}..{} instead of {}..{}", s.min, s.max, d.min, d.max);
    ensure!((s.mean - d.mean).abs() <= 1e-13 * scale * (1 + v.len()) as f64, "mean {} instead of {}", s.mean, d.mean);
    // Residuals may sit on a bias a million times their spread.
    ensure!((s.std - d.std).abs() <= 1e-9 * d.std + 1e-12 * scale, "std {} instead of {}", s.std, d.std);
    ensure!((s.rms - d.rms).abs() <= 1e-12 * scale, "rms {} instead of {}", s.rms, d.rms);
    Ok(())
}
/// Equal up to the last place, which JSON number parsing may lose.
fn same_stats(a: &ResidualStats, b: &ResidualStats) -> Result<(), String> {
    ensure!(a.n == b.n, "count changes through JSON");
    for (x, y) in [(a.mean, b.mean), (a.std, b.std), (a.rms, b.rms), (a.min, b.min), (a.max, b.max)] {
        ensure!((x - y).abs() <= 1e-14 * y.abs(), "{x} instead of {y} through JSON");
    }
    Ok(())
}
fn statistics(ctx: &Ctx) {
    let alphabets: [(&str, Vec<f64>); 3] = [
        ("small", vec![-2.0, -0.5, 0.0, 0.25, 1.0, 3.0]),
        ("wide", vec![-1e9, -1e-3, 0.0, 1e-3, 7.0, 1e9]),
        ("biased", vec![1e6, 1e6 + 0.0078125, 1e6 - 0.0078125, 1e6 + 0.015625, 1e6 + 0.03125, 1e6 - 0.0625]),
    ];
    let size = ctx.pick(5usize, 6);
    for (name, alpha) in &alphabets {
        let sets = multisets(alpha.len(), size);
        ctx.par(&sets, |l, set| {
            l.case("stats", &format!("{name}={set:?}"), || {
                for perm in permutations(set.len()) {
                    let v: Vec<f64> = perm.iter().map(|&i| alpha[set[i]]).collect();
                    agree(&ResidualStats::from_slice(&v), &v).map_err(|e| format!("{v:?}: {e}"))?;
                }
                Ok(if set.is_empty() { 0 } else { hstr(&format!("{name}{set:?}")) })
            });
        });
    }
    // Grouping: every assignment of labels to values.
    let labels = ["G01", "", "G1", "E,05"];
    let depth = ctx.pick(4usize, 5);
    let seqs = sequences(labels.len() * 3, depth);
    let vals = [-1.5, 0.25, 1e3];
    ctx.par(&seqs, |l, seq| {
        l.case("groups", &format!("{seq:?}"), || {
            let pairs: Vec<(&str, f64)> = seq.iter().map(|&i| (labels[i % 4], vals[i / 4])).collect();
            let g = ResidualsByGroup::from_pairs(pairs.iter().copied());
            let all: Vec<f64> = pairs.iter().map(|p| p.1).collect();
            agree(&g.overall, &all)?;
            let mut names: Vec<&str> = pairs.iter().map(|p| p.0).collect();
            names.sort();
            names.dedup();
            ensure!(g.groups.keys().map(|s| s.as_str()).collect::<Vec<_>>() == names, "groups {:?} instead of {names:?}", g.groups.keys());
            let (mut n, mut s, mut q) = (0usize, 0.0, 0.0);
            for (k, st) in &g.groups {
                let members: Vec<f64> = pairs.iter().filter(|p| p.0 == k).map(|p| p.1).collect();
                agree(st, &members).map_err(|e| format!("group {k:?}: {e}"))?;
                n += st.n;
                s += st.n as f64 * st.mean;
                q += st.n as f64 * st.rms * st.rms;
            }
            ensure!(n == g.overall.n, "groups hold {n} of {} values", g.overall.n);
            ensure!((s - n as f64 * g.overall.mean).abs() < 1e-9, "group sums do not add up");
            ensure!((q - n as f64 * g.overall.rms * g.overall.rms).abs() < 1e-6, "group squares do not add up");
            let back: ResidualsByGroup = serde_json::from_str(&serde_json::to_string(&g).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
            ensure!(back.groups.keys().eq(g.groups.keys()), "groups change through JSON");
            for (k, st) in &g.groups {
                same_stats(&back.groups[k], st)?;
            }
            same_stats(&back.overall, &g.overall)?;
            let rep = SlrValidationReport::from_pairs(all.iter().enumerate().map(|(i, v)| (2451545.0 + i as f64, *v)));
            ensure!(rep.residuals.len() == all.len() && rep.residuals.iter().enumerate().all(|(i, r)| r.jd_tt == 2451545.0 + i as f64 && r.residual_m == all[i]), "report pairs");
            agree(&rep.stats, &all)?;
            Ok(if seq.is_empty() { 0 } else { hstr(&format!("{seq:?}")) })
        });
    });
}
type V3 = [f64; 3];
fn cross(a: V3, b: V3) -> V3 {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn dot(a: V3, b: V3) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
fn unit(a: V3) -> V3 {
    let n = dot(a, a).sqrt();
    [a[0] / n, a[1] / n, a[2] / n]
}
fn state(jd: f64, p: V3, v: V3) -> OrbitState {
    OrbitState::new(JulianDate::new(jd).to_j2000s(), Position::<GCRS>::new(p[0], p[1], p[2]), Velocity::<GCRS>::new(v[0], v[1], v[2]))
}
fn reference_states() -> Vec<(V3, V3)> {
    let mut out = vec![];
    for (p, v) in [
        ([7000.0, 0.0, 0.0], [0.0, 7.5, 0.0]),
        ([-4000.0, 5200.0, 1800.0], [-3.0, -4.0, 5.5]),
        ([0.0, 0.0, -42164.0], [3.0, 0.4, 0.0]),
        ([26560.0, -1e-3, 2.0], [-0.5, 0.1, 3.8]),
        ([5000.0, 5000.0, 5000.0], [1.0, 2.0, -6.0]),
    ] {
        out.push((p, v));
    }
    out
}
fn comparisons(ctx: &Ctx) {
    let refs = reference_states();
    let offs: Vec<V3> = product(&[5, 5, 5]).iter().map(|c| [0, 1, 2].map(|k| [-2.5e-1, -1e-5, 0.0, 3e-4, 12.0][c[k]])).collect();
    let seqs = sequences(refs.len(), ctx.pick(2, 3));
    ctx.par(&offs, |l, off| {
        for (i, (p, v)) in refs.iter().enumerate() {
            l.case("rtn", &format!("ref={i},off={off:?}"), || {
                let r = unit(*p);
                let n = unit(cross(*p, *v));
                let t = cross(n, r);
                let e = [0, 1, 2].map(|k| p[k] + off[0] * r[k] + off[1] * t[k] + off[2] * n[k]);
                let d = rtn_diff(&[state(2460000.25, e, [v[0] + 0.01, v[1], v[2]])], &[state(2460000.25, *p, *v)]);
                ensure!(d.len() == 1, "{} differences", d.len());
                let got = [d[0].r_m, d[0].t_m, d[0].n_m];
                // Cancellation of ~1e4 km coordinates leaves ~1e-11 km.
                let tol = 1e-6 + 1e-9 * dot(*off, *off).sqrt() * 1e3;
                for k in 0..3 {
                    ensure!((got[k] - off[k] * 1e3).abs() <= tol, "component {k}: {} m instead of {} m", got[k], off[k] * 1e3);
                }
                ensure!(d[0].jd_tt == 2460000.25, "epoch {}", d[0].jd_tt);
                let q = d[0].position_rtn_km();
                ensure!((q.x().value() - off[0]).abs() <= tol && (q.y().value() - off[1]).abs() <= tol && (q.z().value() - off[2]).abs() <= tol, "typed displacement");
                Ok(hf(&got))
            });
        }
    });
    // Lists of any length pair up in order, and the summary follows its definition.
    ctx.par(&seqs, |l, seq| {
        for extra in 0..3usize {
            l.case("rtn-list", &format!("seq={seq:?},extra={extra}"), || {
                let est: Vec<OrbitState> = seq.iter().enumerate().map(|(k, &i)| state(2460000.0 + k as f64, [refs[i].0[0] + 0.1 * (k + 1) as f64, refs[i].0[1], refs[i].0[2] - 0.3], refs[i].1)).collect();
                let mut rf: Vec<OrbitState> = seq.iter().enumerate().map(|(k, &i)| state(2460000.0 + k as f64, refs[i].0, refs[i].1)).collect();
                for _ in 0..extra {
                    rf.push(state(2460009.0, refs[0].0, refs[0].1));
                }
                let d = rtn_diff(&est, &rf);
                ensure!(d.len() == seq.len(), "{} differences for {} pairs", d.len(), seq.len());
                for (k, x) in d.iter().enumerate() {
                    let one = rtn_diff(&est[k..k + 1], &rf[k..k + 1]);
                    ensure!(x.jd_tt == one[0].jd_tt && x.r_m == one[0].r_m && x.t_m == one[0].t_m && x.n_m == one[0].n_m, "pair {k} differs from its own comparison");
                    ensure!(((x.r_m * x.r_m + x.t_m * x.t_m + x.n_m * x.n_m).sqrt() - 1e3 * ((0.1 * (k + 1) as f64).powi(2) + 0.09).sqrt()).abs() < 1e-5, "length not preserved");
                }
                for perm in permutations(d.len()) {
                    let dp: Vec<RtnDiff> = perm.iter().map(|&i| d[i].clone()).collect();
                    let s = rtn_summary(&dp);
                    let n = d.len().max(1) as f64;
                    let rms = |f: &dyn Fn(&RtnDiff) -> f64| (d.iter().map(|x| f(x) * f(x)).sum::<f64>() / n).sqrt();
                    let want = [rms(&|x| x.r_m), rms(&|x| x.t_m), rms(&|x| x.n_m)];
                    ensure!(s.n == d.len(), "summary counts {}", s.n);
                    for (g, w) in [(s.rms_r_m, want[0]), (s.rms_t_m, want[1]), (s.rms_n_m, want[2]), (s.rms_3d_m, dot(want, want).sqrt())] {
                        ensure!((g - w).abs() <= 1e-12 * (1.0 + w), "rms {g} instead of {w}");
                    }
                }
                Ok(if seq.is_empty() { 0 } else { hf(&[d[0].r_m, d[0].t_m, extra as f64]) })
            });
        }
    });
}

// ---------------------------------------------------------------- residual tables
fn records() -> Vec<ResidualRecord> {
    let texts = ["C1C", "", "L1,W", "a\"b", "x\ny", "é", "\"", "r\r\nz", " P2 "];
    let nums = [0.0, -0.15, 1e-6, 123456.789012, -1e7, 4.9999994e-7];
    let mut out = vec![];
    for (i, t) in texts.iter().enumerate() {
        for (j, u) in texts.iter().enumerate() {
            let k = i * texts.len() + j;
            out.push(ResidualRecord {
                epoch_jd_tt: 2451545.0 + [0.0, 0.123456789, 8765.5, -20000.000001][k % 4],
                obs_type: t.to_string(),
                satellite: u.to_string(),
                residual_m: nums[k % 6],
                sigma_m: nums[(k / 6) % 6].abs(),
                rejected: k % 3 == 1,
            });
        }
    }
    for r in nums {
        for s in nums {
            out.push(ResidualRecord { epoch_jd_tt: 2460000.5, obs_type: "C1C".into(), satellite: "G01".into(), residual_m: r, sigma_m: s.abs(), rejected: r < 0.0 });
        }
    }
    out
}
/// RFC 4180 reader.
fn parse_csv(text: &str) -> Result<Vec<Vec<String>>, String> {
    let mut rows = vec![];
    let mut row: Vec<String> = vec![];
    let mut cell = String::new();
    let mut it = text.chars().peekable();
    let mut quoted = false;
    let mut started = false;
    while let Some(c) = it.next() {
        if quoted {
            if c == '"' {
                if it.peek() == Some(&'"') {
                    it.next();
                    cell.push('"');
                } else {
                    quoted = false;
                }
            } else {
                cell.push(c);
            }
            continue;
        }
        match c {
            '"' if cell.is_empty() && !started => {
                quoted = true;
                started = true;
            }
            '"' => return Err("stray quote".into()),
            ',' => {
                row.push(std::mem::take(&mut cell));
                started = false;
            }
            '\n' => {
                row.push(std::mem::take(&mut cell));
                started = false;
                rows.push(std::mem::take(&mut row));
            }
            '\r' if it.peek() == Some(&'\n') => {}
            _ => cell.push(c),
        }
    }
    if quoted || !row.is_empty() || !cell.is_empty() {
        return Err("torn last row".into());
    }
    Ok(rows)
}
const HEADER: [&str; 6] = ["epoch_jd_tt", "obs_type", "satellite", "residual_m", "sigma_m", "rejected"];
fn same_row(row: &[String], r: &ResidualRecord) -> Result<(), String> {
    ensure!(row.len() == 6, "{} columns in {row:?}", row.len());
    let f = |k: usize| row[k].parse::<f64>().map_err(|e| format!("column {k} {:?}: {e}", row[k]));
    // One unit of the last printed decimal, plus one ulp of the Julian date.
    ensure!((f(0)? - r.epoch_jd_tt).abs() <= 1.0e-9, "epoch {} instead of {}", row[0], r.epoch_jd_tt);
    ensure!(row[1] == r.obs_type && row[2] == r.satellite, "text {:?},{:?} instead of {:?},{:?}", row[1], row[2], r.obs_type, r.satellite);
    ensure!((f(3)? - r.residual_m).abs() <= 0.5001e-6 + 1e-15 * r.residual_m.abs(), "residual {} instead of {}", row[3], r.residual_m);
    ensure!((f(4)? - r.sigma_m).abs() <= 0.5001e-6 + 1e-15 * r.sigma_m.abs(), "sigma {} instead of {}", row[4], r.sigma_m);
    ensure!(row[5] == r.rejected.to_string(), "rejected {} instead of {}", row[5], r.rejected);
    Ok(())
}
/// A sink behind a volatile buffer: only flushed bytes survive, and the sink fails at byte `limit`.
struct Dev {
    durable: Vec<u8>,
    volatile: Vec<u8>,
    limit: usize,
    chunk: usize,
    dead: bool,
}
struct Sink(Rc<RefCell<Dev>>);
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let mut d = self.0.borrow_mut();
        let used = d.durable.len() + d.volatile.len();
        if d.dead || used >= d.limit {
            d.dead = true;
            return Err(std::io::Error::other("sink failed"));
        }
        let n = b.len().min(d.chunk).min(d.limit - used);
        d.volatile.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        let mut d = self.0.borrow_mut();
        if d.dead {
            return Err(std::io::Error::other("sink failed"));
        }
        let v = std::mem::take(&mut d.volatile);
        d.durable.extend(v);
        Ok(())
    }
}
fn tables(ctx: &Ctx) {
    let recs = records();
    // Every record alone, then every sequence over a small set of awkward records.
    let singles: Vec<usize> = (0..recs.len()).collect();
    ctx.par(&singles, |l, &i| {
        l.case("csv", &format!("record={i}"), || {
            let mut buf = Vec::new();
            {
                let mut w = ResidualCsvWriter::new(&mut buf).map_err(|e| e.to_string())?;
                w.write_record(&recs[i]).map_err(|e| e.to_string())?;
            }
            let rows = parse_csv(std::str::from_utf8(&buf).map_err(|e| e.to_string())?)?;
            ensure!(rows.len() == 2 && rows[0] == HEADER, "rows {rows:?}");
            same_row(&rows[1], &recs[i])?;
            Ok(hstr(&format!("{:?}", recs[i])))
        });
    });
    let pick: Vec<&ResidualRecord> = [0usize, 2 * 9 + 3, 4 * 9 + 7, recs.len() - 1].iter().map(|&i| &recs[i]).collect();
    let seqs = sequences(pick.len(), ctx.pick(3, 5));
    ctx.par(&seqs, |l, seq| {
        let list: Vec<&ResidualRecord> = seq.iter().map(|&i| pick[i]).collect();
        let mut total = 0;
        l.case("csv-seq", &format!("{seq:?}"), || {
            let mut buf = Vec::new();
            {
                let mut w = ResidualCsvWriter::new(&mut buf).map_err(|e| e.to_string())?;
                for r in &list {
                    w.write_record(r).map_err(|e| e.to_string())?;
                }
                w.flush().map_err(|e| e.to_string())?;
            }
            total = buf.len();
            let rows = parse_csv(std::str::from_utf8(&buf).map_err(|e| e.to_string())?)?;
            ensure!(rows.len() == list.len() + 1 && rows[0] == HEADER, "{} rows", rows.len());
            for (row, r) in rows[1..].iter().zip(&list) {
                same_row(row, r)?;
            }
            Ok(hstr(&format!("{seq:?}")))
        });
        // Crash points: the sink fails at every byte; a record acknowledged with Ok must be durable.
        if seq.len() <= 3 {
            for limit in 0..=total {
                for chunk in [1usize, 7, usize::MAX] {
                    l.case("csv-crash", &format!("{seq:?},byte={limit},chunk={}", chunk.min(99)), || {
                        let dev = Rc::new(RefCell::new(Dev { durable: vec![], volatile: vec![], limit, chunk, dead: false }));
                        let mut acked: Vec<&ResidualRecord> = vec![];
                        let mut opened = false;
                        if let Ok(mut w) = ResidualCsvWriter::new(Sink(dev.clone())) {
                            opened = true;
                            for r in &list {
                                if w.write_record(r).is_err() {
                                    break;
                                }
                                acked.push(r);
                            }
                        }
                        let d = dev.borrow();
                        ensure!(limit < total || acked.len() == list.len(), "a healthy sink was refused");
                        ensure!(limit >= total || acked.len() < list.len() || (!opened && list.is_empty()), "a failed sink was acknowledged");
                        let text = String::from_utf8_lossy(&d.durable).to_string();
                        // Cut the torn tail: keep the acknowledged rows only.
                        let mut rows = vec![];
                        for (k, _) in text.match_indices('\n') {
                            if let Ok(r) = parse_csv(&text[..=k]) {
                                rows = r;
                            }
                        }
                        if opened {
                            ensure!(!rows.is_empty() && rows[0] == HEADER, "header lost");
                        }
                        ensure!(acked.is_empty() || rows.len() > acked.len(), "{} of {} acknowledged records survive", rows.len().saturating_sub(1), acked.len());
                        for (row, r) in rows.iter().skip(1).zip(&acked) {
                            same_row(row, r)?;
                        }
                        Ok(limit as u64 + 1)
                    });
                }
            }
        }
    });
    // Columnar: bit-exact, every sequence and batch-edge row counts.
    let read = |bytes: Vec<u8>| -> Result<Vec<ResidualRecord>, String> {
        use parquet::file::reader::{FileReader, SerializedFileReader};
        use parquet::record::RowAccessor;
        let p = std::env::temp_dir().join(format!("mc-c23-pq-{}-{:?}", std::process::id(), std::thread::current().id()));
        std::fs::write(&p, &bytes).map_err(|e| e.to_string())?;
        let out = (|| {
            let f = std::fs::File::open(&p).map_err(|e| e.to_string())?;
            let r = SerializedFileReader::new(f).map_err(|e| e.to_string())?;
            let names: Vec<String> = r.metadata().file_metadata().schema_descr().columns().iter().map(|c| c.name().to_string()).collect();
            ensure!(names == HEADER, "columns {names:?}");
            let mut v = vec![];
            for row in r.get_row_iter(None).map_err(|e| e.to_string())? {
                let row = row.map_err(|e| e.to_string())?;
                let e = |e: parquet::errors::ParquetError| e.to_string();
                v.push(ResidualRecord {
                    epoch_jd_tt: row.get_double(0).map_err(e)?,
                    obs_type: row.get_string(1).map_err(e)?.clone(),
                    satellite: row.get_string(2).map_err(e)?.clone(),
                    residual_m: row.get_double(3).map_err(e)?,
                    sigma_m: row.get_double(4).map_err(e)?,
                    rejected: row.get_bool(5).map_err(e)?,
                });
            }
            Ok(v)
        })();
        let _ = std::fs::remove_file(&p);
        out
    };
    let write = |list: &[ResidualRecord]| -> Result<Vec<u8>, String> {
        let mut w = ResidualParquetWriter::new(std::io::Cursor::new(Vec::new()));
        for r in list {
            w.push(r.clone());
        }
        Ok(w.finish().map_err(|e| e.to_string())?.into_inner())
    };
    let eq = |a: &ResidualRecord, b: &ResidualRecord| {
        a.epoch_jd_tt.to_bits() == b.epoch_jd_tt.to_bits() && a.obs_type == b.obs_type && a.satellite == b.satellite && a.residual_m.to_bits() == b.residual_m.to_bits() && a.sigma_m.to_bits() == b.sigma_m.to_bits() && a.rejected == b.rejected
    };
    let mut pq: Vec<(String, Vec<ResidualRecord>)> = seqs.iter().filter(|s| s.len() <= 3).map(|s| (format!("{s:?}"), s.iter().map(|&i| pick[i].clone()).collect())).collect();
    pq.extend(singles.iter().map(|&i| (format!("record={i}"), vec![recs[i].clone()])));
    let counts: &[usize] = ctx.pick(&[7, 8, 9, 63, 64, 65, 1023, 1024, 1025][..], &[7, 8, 9, 63, 64, 65, 1023, 1024, 1025, 2049, 20000, 20001, 70000][..]);
    for &n in counts {
        let list = (0..n)
            .map(|i| {
                let mut r = recs[(i * 7) % recs.len()].clone();
                r.residual_m += i as f64 * 0.001;
                r
            })
            .collect();
        pq.push((format!("rows={n}"), list));
    }
    pq.push(("specials".into(), [f64::NAN, f64::INFINITY, -0.0, f64::MIN_POSITIVE, f64::MAX].iter().map(|&x| ResidualRecord { residual_m: x, ..recs[0].clone() }).collect()));
    ctx.par(&pq, |l, (key, list)| {
        l.case("parquet", key, || {
            let back = read(write(list)?)?;
            ensure!(back.len() == list.len(), "{} rows of {}", back.len(), list.len());
            for (i, (a, b)) in back.iter().zip(list).enumerate() {
                ensure!(eq(a, b), "row {i}: {a:?} instead of {b:?}");
            }
            Ok(hstr(key) | 1)
        });
    });
    // QC document: every field is in the JSON under its own name.
    let mut l = Local::default();
    for c in product(&[3, 3, 3, 3]) {
        l.case("qc-json", &format!("{c:?}"), || {
            let vals = [vec![0.0, 1.5, -2.0], vec![3.0]];
            let doc = QcDocument {
                schema_version: "qc.v1".into(),
                run_id: ["", "r\"1", "é\n"][c[0]].to_string(),
                software_version: "s".into(),
                n_obs: [0, 7, usize::MAX >> 12][c[1]],
                n_params: [1, 6, 1000][c[2]],
                reduced_chi2: [0.1, 1e-300, 12345.678901234567][c[3]],
                iterations: c[0] + 2 * c[1],
                residuals: ResidualStats::from_slice(&vals[c[2] % 2]),
            };
            let mut buf = vec![];
            write_qc_json(&mut buf, &doc).map_err(|e| e.to_string())?;
            ensure!(buf.last() == Some(&b'\n'), "no final newline");
            let v: serde_json::Value = serde_json::from_slice(&buf).map_err(|e| e.to_string())?;
            ensure!(v["schema_version"] == "qc.v1" && v["run_id"] == doc.run_id.as_str() && v["software_version"] == "s", "text fields {v}");
            ensure!(v["n_obs"].as_u64() == Some(doc.n_obs as u64) && v["n_params"].as_u64() == Some(doc.n_params as u64) && v["iterations"].as_u64() == Some(doc.iterations as u64), "counts {v}");
            ensure!(v["reduced_chi2"].as_f64() == Some(doc.reduced_chi2), "chi2 {v}");
            let r: ResidualStats = serde_json::from_value(v["residuals"].clone()).map_err(|e| e.to_string())?;
            same_stats(&r, &doc.residuals)?;
            Ok(hstr(&String::from_utf8_lossy(&buf)))
        });
    }
    ctx.merge(l);
}

// ---------------------------------------------------------------- orbit products
fn tt_seconds(t: siderust::time::Time<siderust::time::UTC>) -> f64 {
    let (h, lo) = t.to_scale::<siderust::time::TT>().to_j2000s().raw_seconds_pair();
    h.value() + lo.value()
}
fn orbit_products(ctx: &Ctx) {
    let starts: Vec<f64> = vec![2451545.0, 2459580.500000, 2457754.4999, 2457753.999, 2444244.5008, 2460310.5008007, 2460676.49999, 2455000.123456];
    let steps: Vec<f64> = vec![30.0, 900.0, 0.5, 3600.0, 86400.0];
    let refs = reference_states();
    let counts: &[usize] = ctx.pick(&[0, 1, 2, 5][..], &[0, 1, 2, 3, 5, 97, 1000][..]);
    let mut items = vec![];
    for (i, _) in starts.iter().enumerate() {
        for (j, _) in steps.iter().enumerate() {
            for &n in counts {
                for id in ["L01", "G", "E 5"] {
                    items.push((i, j, n, id));
                }
            }
        }
    }
    let dir = Scratch::new("orbit");
    ctx.par(&items, |l, &(i, j, n, id)| {
        let t0 = JulianDate::new(starts[i]).to_j2000s();
        let states: Vec<OrbitState> = (0..n)
            .map(|k| {
                let (p, v) = refs[(k + i) % refs.len()];
                OrbitState::new(t0 + qtty::Second::new(steps[j] * k as f64), Position::<GCRS>::new(p[0] + 0.1234567 * k as f64, p[1], p[2]), Velocity::<GCRS>::new(v[0], v[1] + 1.2345e-5 * k as f64, v[2]))
            })
            .collect();
        let craft: Vec<SpacecraftState> = states.iter().map(|s| SpacecraftState { orbit: *s, properties: SpacecraftProperties::demo_leo() }).collect();
        let key = format!("start={},step={},n={n},id={id:?}", starts[i], steps[j]);
        let secs = |s: &OrbitState| {
            let (h, lo) = s.epoch.raw_seconds_pair();
            h.value() + lo.value()
        };
        l.case("sp3", &key, || {
            let mut buf = vec![];
            write_sp3_from_states(&mut buf, id, &states).map_err(|e| e.to_string())?;
            let back = read_sp3(&buf[..]).map_err(|e| format!("read back: {e}"))?;
            ensure!(back.epochs.len() == n, "{} epochs of {n}", back.epochs.len());
            for (k, (e, s)) in back.epochs.iter().zip(&states).enumerate() {
                ensure!(e.positions.len() == 1 && e.positions[0].sat_id == id, "epoch {k}: {:?}", e.positions);
                ensure!((tt_seconds(e.time) - secs(s)).abs() < 1e-4, "epoch {k}: {} s instead of {} s", tt_seconds(e.time), secs(s));
                let p = &e.positions[0].position;
                for (a, b) in [(p.x().value(), s.position.x().value()), (p.y().value(), s.position.y().value()), (p.z().value(), s.position.z().value())] {
                    ensure!((a - b).abs() <= 0.501e-6, "epoch {k}: coordinate {a} instead of {b}");
                }
            }
            if n > 0 {
                // The header describes this file: start, epoch count, interval, time system.
                let h = &back.header;
                let start: Vec<f64> = h[0][3..].replace('*', " ").split_whitespace().take(7).map(|x| x.parse().unwrap_or(f64::NAN)).collect();
                let text = String::from_utf8_lossy(&buf).to_string();
                let first = text.lines().find(|x| x.starts_with('*')).unwrap_or("").to_string();
                let first: Vec<f64> = first[1..].split_whitespace().map(|x| x.parse().unwrap_or(f64::NAN)).collect();
                ensure!(start[..6] == first[..], "header start {start:?}, first epoch {first:?}");
                ensure!(start[6] == n as f64, "header counts {} epochs of {n}", start[6]);
                ensure!(h[0].get(32..39).map(|x| x.trim().to_string()) == Some(n.to_string()), "epoch count not in its columns: {:?}", h[0]);
                let g: Vec<f64> = h[1][2..].split_whitespace().map(|x| x.parse().unwrap_or(f64::NAN)).collect();
                ensure!(g.len() == 5, "second line {:?}", h[1]);
                let civil = first[3] * 3600.0 + first[4] * 60.0 + first[5];
                let mjd = mjd_of(first[0] as i64, first[1] as i64, first[2] as i64);
                ensure!(g[3] == mjd as f64, "MJD {} instead of {mjd}", g[3]);
                ensure!((g[4] - civil / 86400.0).abs() < 1e-12, "day fraction {} instead of {}", g[4], civil / 86400.0);
                let days = mjd - 44244;
                ensure!(g[0] == days.div_euclid(7) as f64 && (g[1] - (days.rem_euclid(7) as f64 * 86400.0 + civil)).abs() < 1e-7, "GPS week/second {} {}", g[0], g[1]);
                ensure!((g[2] - if n > 1 { steps[j] } else { 0.0 }).abs() < 1e-4, "interval {}", g[2]);
                ensure!(h.iter().any(|x| x.starts_with("%c") && x.get(9..12) == Some("UTC")), "epochs are written in UTC but the header does not say so");
                ensure!(h.iter().any(|x| x.starts_with('+') && x.get(9..12).map(str::trim) == Some(id)), "satellite list");
            }
            let p = dir.0.join(format!("{i}-{j}-{n}-{}.sp3", id.trim()));
            let r = Sp3ProductWriter::new(id).write_from_states(&p, &craft);
            let file = std::fs::read(&p);
            let _ = std::fs::remove_file(&p);
            r.map_err(|e| e.to_string())?;
            ensure!(file.map_err(|e| e.to_string())? == buf, "file and stream differ");
            Ok(if n == 0 { 0 } else { fnv(&buf) })
        });
        l.case("oem", &key, || {
            let mut buf = vec![];
            let r = write_oem_from_states(&mut buf, "2024-001A", id.trim(), &states);
            if n == 0 {
                ensure!(r.is_err() && buf.is_empty(), "an orbit file without states was written");
                return Ok(0);
            }
            r.map_err(|e| e.to_string())?;
            let back = read_oem(&buf[..]).map_err(|e| format!("read back: {e}"))?;
            ensure!(back.segments.len() == 1, "{} segments", back.segments.len());
            let m = &back.segments[0].metadata;
            ensure!(m.object_id == "2024-001A" && m.object_name == id.trim() && m.center_name == "EARTH" && m.time_system == "TT", "metadata {m:?}");
            ensure!(m.ref_frame == "GCRF", "GCRS states labelled {}", m.ref_frame);
            let b = &back.segments[0].states;
            ensure!(b.len() == n, "{} states of {n}", b.len());
            for (k, (x, s)) in b.iter().zip(&states).enumerate() {
                ensure!(((x.epoch_jd - 2451545.0) * 86400.0 - secs(s)).abs() < 2e-4, "state {k}: epoch {}", x.epoch_jd);
                let p = [s.position.x().value(), s.position.y().value(), s.position.z().value()];
                let v = [s.velocity.x().value(), s.velocity.y().value(), s.velocity.z().value()];
                for c in 0..3 {
                    ensure!((x.position_km[c] - p[c]).abs() <= 0.501e-6 && (x.velocity_km_s[c] - v[c]).abs() <= 0.501e-9, "state {k} axis {c}: {} {}", x.position_km[c], x.velocity_km_s[c]);
                }
            }
            let mut buf2 = vec![];
            write_oem_from_spacecraft_states(&mut buf2, "2024-001A", id.trim(), &craft).map_err(|e| e.to_string())?;
            ensure!(buf2 == buf, "spacecraft states written differently");
            let p = dir.0.join(format!("{i}-{j}-{n}-{}.oem", id.trim()));
            let r = OemProductWriter::new("2024-001A", id.trim()).write_from_states(&p, &craft);
            let file = std::fs::read(&p);
            let _ = std::fs::remove_file(&p);
            r.map_err(|e| e.to_string())?;
            ensure!(file.map_err(|e| e.to_string())? == buf, "file and stream differ");
            Ok(fnv(&buf))
        });
    });
}
/// Civil date to MJD by counting days.
fn leap(y: i64) -> bool {
    y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)
}
const MD: [i64; 12] = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
fn mjd_of(y: i64, m: i64, d: i64) -> i64 {
    let mut n = 44239; // 1980-01-01
    let mut k = 1980;
    while k < y {
        n += 365 + leap(k) as i64;
        k += 1;
    }
    while k > y {
        k -= 1;
        n -= 365 + leap(k) as i64;
    }
    for i in 0..(m - 1) as usize {
        n += MD[i] + (i == 1 && leap(y)) as i64;
    }
    n + d - 1
}
fn names(ctx: &Ctx) {
    use chrono::NaiveDate;
    let years: Vec<i64> = (1980..ctx.pick(2060, 2160)).collect();
    ctx.par(&years, |l, &y| {
        let (mut doy, mut mjd) = (0, mjd_of(y, 1, 1));
        for m in 1..=12i64 {
            for d in 1..=MD[m as usize - 1] + (m == 2 && leap(y)) as i64 {
                doy += 1;
                let date = NaiveDate::from_ymd_opt(y as i32, m as u32, d as u32).unwrap();
                l.case("name", &format!("{y}-{m:02}-{d:02}"), || {
                    let rate = [1u32, 30, 60, 300, 900, 3600, 86400][(doy as usize) % 7];
                    let (ft, tag) = [(Sp3FileType::PositionOnly, "ORB"), (Sp3FileType::PositionVelocity, "OBV")][doy as usize % 2];
                    let (ver, c) = [(Sp3Version::A, 'a'), (Sp3Version::C, 'c'), (Sp3Version::D, 'd')][doy as usize % 3];
                    let got = sp3_filename("L01", date, ft, rate, ver);
                    let want = format!("L01{c}OPSFIN_{y:04}{doy:03}0000_01D_{}_{tag}.SP3", sample_rate_to_lfn(rate));
                    ensure!(got.to_str() == Some(&want), "{got:?} instead of {want}");
                    let n = mjd - 44244;
                    if n >= 0 {
                        let got = sp3_short_filename("igs", date, ver);
                        let want = format!("igs{:04}{}.sp3", n / 7, n % 7);
                        ensure!(got.to_str() == Some(&want), "{got:?} instead of {want}");
                    }
                    Ok(mjd as u64)
                });
                mjd += 1;
            }
        }
    });
    let mut l = Local::default();
    // A tag names the interval it was made from, for every interval a tag can express exactly.
    for s in (1..60).chain((1..60).map(|m| m * 60)).chain((1..=24).map(|h| h * 3600)) {
        l.case("rate", &format!("{s}"), || {
            let t = sample_rate_to_lfn(s);
            ensure!(t.len() == 3, "tag {t:?}");
            let n: u32 = t[..2].parse().map_err(|e| format!("{t:?}: {e}"))?;
            let u = match &t[2..] {
                "S" => 1,
                "M" => 60,
                "H" => 3600,
                _ => 0,
            };
            ensure!(n * u == s, "{t} is {} s, not {s} s", n * u);
            Ok(s as u64)
        });
    }
    for c in product(&[2, 3, 4, 3, 4, 4]) {
        l.case("lfn", &format!("{c:?}"), || {
            let (ac, v, y, doy, h, mi) = (["IGS", "GFZ"][c[0]], ['0', 'b', 'z'][c[1]], [1999, 2000, 2024, 2100][c[2]], [1u32, 60, 366][c[3]], [0u32, 1, 12, 23][c[4]], [0u32, 5, 30, 59][c[5]]);
            let stem = format!("{ac}{v}OPSFIN_{y:04}{doy:03}{h:02}{mi:02}_01D_15M");
            for (got, tail) in [
                (sp3_lfn(ac, v, "OPSFIN", y, doy, h, mi, "01D", "15M"), "_ORB.SP3"),
                (clk_filename(ac, v, "OPSFIN", y, doy, h, mi, "01D", "15M"), "_CLK.CLK"),
                (rnx_obs_filename(ac, v, "OPSFIN", y, doy, h, mi, "01D", "15M"), "_MO.rnx"),
                (igs_lfn(ac, v, "OPSFIN", y, doy, h, mi, "01D", "15M", "ATT", "OBX"), "_ATT.OBX"),
            ] {
                ensure!(got.to_str() == Some(&format!("{stem}{tail}")), "{got:?} instead of {stem}{tail}");
            }
            Ok(hstr(&stem))
        });
    }
    ctx.merge(l);
}

// ---------------------------------------------------------------- descriptions
fn kinds() -> Vec<ParameterKind> {
    use ParameterKind::*;
    vec![
        StatePositionX, StatePositionY, StatePositionZ, StateVelocityX, StateVelocityY, StateVelocityZ, DragScale, SrpScale,
        ReceiverClockBias { receiver_id: "a".into() },
        ReceiverClockBias { receiver_id: "b".into() },
        CarrierAmbiguity { receiver_id: "a".into(), satellite_id: "G01".into(), signal: "L1".into() },
        CarrierAmbiguity { receiver_id: "a".into(), satellite_id: "G01".into(), signal: "L2".into() },
        CarrierAmbiguity { receiver_id: "a".into(), satellite_id: "G02".into(), signal: "L1".into() },
        SlrRangeBias { station_id: "a".into() },
        EmpiricalAcceleration { frame: "RTN".into(), component: 'R' },
        EmpiricalAcceleration { frame: "RTN".into(), component: 'T' },
        Custom("a".into()),
    ]
}
fn descriptions(ctx: &Ctx) {
    let mut l = Local::default();
    for c in product(&[2, 2, 3]) {
        l.case("thrust-arc", &format!("{c:?}"), || {
            let id = ["burn-1", "", "b[2]"][c[2]];
            let cfg = ThrustArcConfig { id: id.into(), start_seconds_tdb: 0.0, stop_seconds_tdb: 10.0, estimate_thrust_scale: c[0] == 1, estimate_delta_v: c[1] == 1 };
            let p = cfg.parameters();
            let mut want = vec![];
            if c[0] == 1 {
                want.push((format!("thrust_scale[{id}]"), 1.0));
            }
            if c[1] == 1 {
                for a in ["X", "Y", "Z"] {
                    want.push((format!("delta_v_{a}[{id}]"), 0.0));
                }
            }
            let mut got: Vec<(String, f64)> = vec![];
            for q in &p {
                match &q.kind {
                    ParameterKind::Custom(n) => got.push((n.clone(), q.initial_value)),
                    k => return Err(format!("unexpected parameter {k:?}")),
                }
                ensure!(q.apriori_sigma.is_some_and(|s| s > 0.0 && s.is_finite()), "no usable a-priori sigma: {q:?}");
            }
            ensure!(got == want, "{got:?} instead of {want:?}");
            Ok(hstr(&format!("{got:?}")) * (got.len() as u64).min(1))
        });
    }
    l.case("registry", "names", || {
        let r = ForceModelRegistry::with_builtins();
        let n: Vec<&str> = r.names();
        let mut s = n.clone();
        s.sort();
        s.dedup();
        ensure!(s.len() == n.len() && n.len() >= 12, "names {n:?}");
        ensure!(n.iter().all(|x| r.is_registered(x)) && !r.is_registered("nope") && !r.is_registered(""), "registered names");
        Ok(hstr(&n.join(",")))
    });
    ctx.merge(l);
    let ks = kinds();
    let seqs = sequences(ks.len(), ctx.pick(3, 4));
    ctx.par(&seqs, |l, seq| {
        l.case("ordering", &format!("{seq:?}"), || {
            let o = ParameterOrdering { params: seq.iter().enumerate().map(|(i, &k)| Parameter { kind: ks[k].clone(), initial_value: i as f64, apriori_sigma: (i % 2 == 0).then_some(0.1) }).collect() };
            ensure!(o.len() == seq.len() && o.is_empty() == seq.is_empty(), "length");
            for (k, kind) in ks.iter().enumerate() {
                let want = seq.iter().position(|&x| x == k);
                ensure!(o.index_of(kind) == want, "index of {kind:?}: {:?} instead of {want:?}", o.index_of(kind));
            }
            let back: ParameterOrdering = serde_json::from_str(&serde_json::to_string(&o).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
            ensure!(back == o, "ordering changes through JSON");
            Ok(if seq.is_empty() { 0 } else { hstr(&format!("{seq:?}")) })
        });
    });
    // Covariances: every single defect at every entry, every length around n^2.
    let mut l = Local::default();
    for n in 0..=4usize {
        let params = ParameterOrdering { params: (0..n).map(|i| Parameter { kind: ParameterKind::Custom(i.to_string()), initial_value: 0.0, apriori_sigma: None }).collect() };
        let good: Vec<f64> = (0..n * n).map(|k| { let (i, j) = (k / n, k % n); if i == j { i as f64 } else { 0.25 * (i.min(j) as f64 + 1.0) } }).collect();
        for len in 0..=n * n + 2 {
            l.case("covariance", &format!("n={n},len={len}"), || {
                let c = ParameterCovariance { params: params.clone(), data: (0..len).map(|k| good.get(k).copied().unwrap_or(0.0)).collect() };
                let ok = len == n * n;
                let (a, b, d) = (c.validate_dim(), c.validate_symmetric(0.0), c.validate_diagonal_nonneg());
                ensure!(a.is_ok() == ok && b.is_ok() == ok && d.is_ok() == ok, "{a:?} {b:?} {d:?}");
                if !ok {
                    for e in [a, b, d] {
                        ensure!(matches!(e, Err(CovarianceError::Dimension { expected, actual }) if expected == n && actual == len), "wrong report");
                    }
                }
                ensure!(c.n() == n, "n");
                Ok(ok as u64 + 1)
            });
        }
        for i in 0..n {
            for j in 0..n {
                for (delta, tol) in [(1e-6, 1e-7), (1e-6, 1e-5), (-1e-6, 1e-7), (-1e-6, 1e-5)] {
                    l.case("covariance", &format!("n={n},at={i},{j},delta={delta},tol={tol}"), || {
                        let mut data = good.clone();
                        data[i * n + j] += delta;
                        let c = ParameterCovariance { params: params.clone(), data };
                        let r = c.validate_symmetric(tol);
                        let bad = i != j && f64::abs(delta) > tol;
                        ensure!(r.is_err() == bad, "{r:?}");
                        if let Err(e) = r {
                            ensure!(matches!(e, CovarianceError::NotSymmetric { i: a, j: b, .. } if (a, b) == (i.min(j), i.max(j))), "{e:?}");
                        }
                        let neg = i == j && good[i * n + i] + delta < 0.0;
                        let r = c.validate_diagonal_nonneg();
                        ensure!(r.is_err() == neg, "{r:?}");
                        if let Err(e) = r {
                            ensure!(matches!(e, CovarianceError::NotPsdDiagonal { i: a, .. } if a == i), "{e:?}");
                        }
                        Ok(bad as u64 + 2 * neg as u64)
                    });
                }
            }
        }
    }
    for (k, d) in [-86400.0, -1e-3, 0.0, 1e-3, 30.0, 86400.0].iter().enumerate() {
        l.case("arc", &format!("duration={d}"), || {
            let start = JulianDate::new(2460000.0 + k as f64).to_j2000s();
            let a = ArcDefinition { id: ArcId::new("arc-1"), start, stop: start + qtty::Second::new(*d), step_hint: None };
            ensure!(a.id.as_str() == "arc-1" && a.id.to_string() == "arc-1", "id");
            ensure!((a.duration().value() - d).abs() < 1e-6, "duration {}", a.duration().value());
            ensure!(a.is_valid() == (*d >= 0.0), "validity");
            Ok(k as u64 + 1)
        });
    }
    ctx.merge(l);
}

pub fn run(tier: Tier) -> Ctx {
    let mut ctx = Ctx::new("C23", "fault_enumeration", tier,
        "every message length to the bound (four patterns, bytes and file routes) and every single-bit wrong pin; every multiset of datasets to the size bound in every recording order; every multiset of residuals in every order and every label assignment to the depth bound; every record and record sequence through the text and columnar writers; every byte at which the sink of the text writer can fail, behind a volatile buffer, with one-byte, short and whole writes; every start, step, count and satellite of the orbit products; every date and sample rate of the names; every option subset and parameter sequence; every single covariance defect. Non-trivial: something was written, compared or refused.");
    ctx.assumptions = vec![
        "text columns are read back to the decimals they print (1e-9 day, 1e-6 m)".into(),
        "UTC calendar conversion of the time library is good to about 2e-5 s, so product epochs are compared to 1e-4 s".into(),
        "sample rates that a two-digit tag cannot express exactly are outside the property".into(),
    ];
    digests(&ctx);
    manifests(&ctx);
    statistics(&ctx);
    comparisons(&ctx);
    tables(&ctx);
    orbit_products(&ctx);
    names(&ctx);
    descriptions(&ctx);
    ctx
}
