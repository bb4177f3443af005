//! C10: evaluation of binary ephemeris and attitude kernels: every segment type, degree, record count, byte
//! order and file layout, at and around every record edge, against direct evaluation of the stored series.
use crate::core::*;
use crate::spice::*;
use siderust::coordinates::frames::{EclipticMeanJ2000, ICRF};
use siderust::coordinates::transform::VectorAstroExt;
use siderust::ephemeris::{DynEphemeris, RuntimeEphemeris};
use siderust::formats::spice::spk::{self, parse_bsp, parse_indexed_segments};
use siderust::coordinates::centers::Geocentric;
use siderust::pod::providers::EphemerisProvider;
use siderust::pod::spice::SpiceEphemerisProvider;
use tempoch::{Time, TDB};
use siderust::formats::spice::{CkKernel, SpiceError, SpkKernel, SpkKernelSet};
use siderust::qtty::{Kilometer, Kilometers};
use siderust::spice::SpiceContext;
use siderust::time::JulianDate;

fn up(x: f64) -> f64 {
    x.next_up()
}
fn dn(x: f64) -> f64 {
    x.next_down()
}
fn jd(x: f64) -> JulianDate {
    JulianDate::new(x)
}
fn eq6(got: &[f64], want: &[f64], tp: f64, tv: f64) -> Result<(), String> {
    for i in 0..want.len() {
        let t = if i < 3 { tp } else { tv };
        if !((got[i] - want[i]).abs() <= t) {
            return Err(format!("component {i}: got {:e}, stored series gives {:e} (difference {:e})", got[i], want[i], got[i] - want[i]));
        }
    }
    Ok(())
}
const LAYOUTS: [Layout; 5] = [
    PLAIN,
    Layout { little: false, ..PLAIN },
    Layout { little: true, reserved: 3, per_record: 1, tail: false },
    Layout { little: false, reserved: 1, per_record: 2, tail: true },
    Layout { little: true, reserved: 0, per_record: 1, tail: true },
];
fn out_of_coverage<T: std::fmt::Debug>(r: &Result<T, SpiceError>) -> bool {
    matches!(r, Err(SpiceError::OutOfCoverage { .. }))
}

/// What the stored series of a Type 2/3 segment says at `et`, record `r`.
fn want_cheb(s: &Seg, ncoeff: usize, r: usize, et: f64) -> [f64; 6] {
    let axes = if s.ints[3] == 3 { 6 } else { 3 };
    let rs = 2 + axes * ncoeff;
    let rec = &s.words[r * rs..(r + 1) * rs];
    let x = (et - rec[0]) / rec[1];
    let mut out = [0.0; 6];
    for a in 0..axes {
        let (p, d) = cheb_eval(&rec[2 + a * ncoeff..2 + (a + 1) * ncoeff], x);
        out[a] = p;
        if axes == 3 {
            out[a + 3] = d / rec[1];
        }
    }
    out
}

fn chebyshev(ctx: &Ctx, tier: Tier) {
    let th = tier == Tier::Thorough;
    let mut items = vec![];
    let ncs: Vec<usize> = if th { (1..=24).collect() } else { vec![1, 2, 3, 4, 7, 13, 20] };
    for dtype in [2, 3] {
        for &nc in &ncs {
            for n in if th { vec![1, 2, 3, 5, 8, 40] } else { vec![1, 2, 3, 8] } {
                for (init, intlen) in [(0.0, 1.0), (-1.5e8, 691_200.0), (3.0e8, 1_382_400.0), (-37.5, 25.0), (7.0e8, 0.3)] {
                    for (li, _) in LAYOUTS.iter().enumerate() {
                        items.push((dtype, nc, n, init, intlen, li));
                    }
                }
            }
        }
    }
    ctx.par(&items, |l, &(dtype, nc, n, init, intlen, li)| {
        let lay = LAYOUTS[li];
        let main = cheb(1001, 0, dtype, init, intlen, n, nc, &|a, r, k| coef(7 + nc as u64, a, r, k));
        let other = linear(1002, 1001, 2, init - 10.0, init + intlen * n as f64 + 10.0, 2, [1.0, -2.0, 3.0], [0.1, 0.2, -0.3]);
        let bytes = daf("DAF/SPK", &[other.clone(), main.clone()], lay);
        let key0 = format!("type{dtype}-nc{nc}-n{n}-init{init:e}-len{intlen}-lay{li}");
        let Ok(k) = SpkKernel::from_bytes(bytes.clone()) else {
            l.case("cheb-load", &key0, || Err("a valid kernel is refused".into()));
            return;
        };
        let mut c = SpiceContext::new();
        let loaded = c.load_bytes("k", bytes.clone());
        l.case("cheb-load", &key0, || loaded.map(|_| 1).map_err(|e| format!("context refuses it: {e}")));
        let end = init + intlen * n as f64;
        let scale = main.words.iter().take(main.words.len() - 4).skip(2).fold(1.0f64, |m, v| if v.abs() < 2e5 { m.max(v.abs()) } else { m });
        // rounding of the epoch relative to the record moves x by ulp(et)/radius
        let dx = (init.abs().max(end.abs())) * 2.3e-16 / (intlen / 2.0) + 1e-15;
        let growth = (nc * nc) as f64;
        let tp = scale * (2e-13 + 8.0 * dx * growth) * nc as f64;
        let tv = if dtype == 3 { tp } else { scale * nc as f64 * (growth * 2e-13 + 4.0 * growth * growth * dx) / (intlen / 2.0) };
        for r in 0..n {
            let (a, b) = (init + intlen * r as f64, init + intlen * (r + 1) as f64);
            let pts = [(0.0, "start"), (0.001, "early"), (0.25, "quarter"), (0.5, "middle"), (0.73, "late"), (0.999, "close"), (1.0, "stop")];
            for (f, name) in pts {
                let et = (a + (b - a) * f).clamp(init, end);
                l.case("cheb", &format!("{key0}-r{r}-{name}"), || {
                    // an edge belongs to either neighbour
                    let mut recs = vec![r];
                    if f <= 0.0 + 1e-9 && r > 0 {
                        recs.push(r - 1);
                    }
                    if f >= 1.0 - 1e-9 && r + 1 < n {
                        recs.push(r + 1);
                    }
                    let got = k.state(1001, 0, et).map_err(|e| format!("refused inside coverage at {et:e}: {e}"))?;
                    let mut err = String::new();
                    let ok = recs.iter().any(|&q| match eq6(&got, &want_cheb(&main, nc, q, et), tp, tv) {
                        Ok(()) => true,
                        Err(e) => {
                            err = e;
                            false
                        }
                    });
                    ensure!(ok, "et {et:e}: {err}");
                    let ctxs = c.state_naif(1001, 0, et).map_err(|e| e.to_string())?;
                    ensure!(ctxs == got, "context and kernel differ: {ctxs:?} {got:?}");
                    let back = k.state(0, 1001, et).map_err(|e| e.to_string())?;
                    ensure!((0..6).all(|i| back[i] == -got[i]), "relative state is not antisymmetric");
                    let sum = k.state(1002, 0, et).map_err(|e| e.to_string())?;
                    let hop = k.state(1002, 1001, et).map_err(|e| e.to_string())?;
                    ensure!((0..6).all(|i| close(sum[i], hop[i] + got[i], 1e-9 * (1.0 + hop[i].abs() + got[i].abs()))), "states do not add along the chain");
                    let lin = [1.0 + 0.1 * et, -2.0 + 0.2 * et, 3.0 - 0.3 * et, 0.1, 0.2, -0.3];
                    eq6(&hop, &lin, 1e-15 * et.abs() + 1e-6, 1e-9).map_err(|e| format!("linear companion: {e}"))?;
                    Ok(hf(&got))
                });
            }
        }
        for (i, et) in [dn(init), dn(init) - 1.0, up(end), up(end) + 1.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY].into_iter().enumerate() {
            l.case("cheb-outside", &format!("{key0}-{i}"), || {
                let r = k.state(1001, 0, et);
                ensure!(r.is_err(), "an epoch outside coverage ({et:e}) is answered: {r:?}");
                ensure!(et.is_nan() || out_of_coverage(&r), "outside coverage reported as {r:?}");
                Ok(1)
            });
        }
        // the readers keyed by Julian date and the raw segment readers
        let idx = parse_indexed_segments(&bytes);
        let mut set = SpkKernelSet::default();
        let pushed = set.push_bytes(&bytes);
        l.case("cheb-readers", &key0, || {
            let idx = idx.map_err(|e| format!("indexed reader refuses the kernel: {e}"))?;
            pushed.map_err(|e| format!("kernel set refuses the kernel: {e}"))?;
            ensure!(idx.len() == 2 && idx[1].target_id == 1001 && idx[1].center_id == 0, "indexed reader lists other segments");
            let d = &idx[1].data;
            ensure!(d.records == main.words[..main.words.len() - 4] && d.n_records == n && d.ncoeff == nc && d.init == init && d.intlen == intlen, "indexed reader returns other words than stored");
            if intlen < 1e-2 * 2.0 {
                return Ok(1);
            }
            let mut h = 0;
            for r in 0..n {
                for f in [0.1, 0.5, 0.9] {
                    let et = init + intlen * (r as f64 + f);
                    let j = jd_of_et(et);
                    let et2 = et_of_jd(j);
                    let q = (((et2 - init) / intlen).floor().max(0.0) as usize).min(n - 1);
                    if et2 < init || et2 > end || ((et2 - init) / intlen).fract() < 1e-3 || ((et2 - init) / intlen).fract() > 0.999 {
                        continue;
                    }
                    let w = want_cheb(&main, nc, q, et2);
                    let g = set.try_geometric_state(1001, 0, jd(j)).map_err(|e| format!("kernel set refuses JD {j}: {e}"))?;
                    let speed = if dtype == 3 { scale * nc as f64 } else { scale * growth / (intlen / 2.0) } * nc as f64;
                    eq6(&[g.x().value(), g.y().value(), g.z().value()], &w[..3], tp + 1e-4 * speed, 0.0).map_err(|e| format!("kernel set at JD {j}: {e}"))?;
                    h ^= hf(&w);
                }
            }
            // outside by ten milliseconds
            for et in [init - 0.01, end + 0.01] {
                ensure!(set.try_geometric_state(1001, 0, jd(jd_of_et(et))).is_err(), "kernel set answers outside coverage");
            }
            Ok(h | 1)
        });
    });
    // descriptor bounds narrower or wider than the data, and exactly at their limits
    let mut items = vec![];
    for dtype in [2, 3] {
        for (ds, de) in [(0.0, 0.0), (1.5, -2.5), (-5.0, 5.0), (3.0, 0.0), (0.0, -3.0), (10.0, -10.0)] {
            for li in 0..LAYOUTS.len() {
                items.push((dtype, ds, de, li));
            }
        }
    }
    ctx.par(&items, |l, &(dtype, ds, de, li)| {
        let (init, intlen, n, nc) = (100.0, 10.0, 3, 4);
        let mut s = cheb(5, 0, dtype, init, intlen, n, nc, &|a, r, k| coef(3, a, r, k));
        s.start += ds;
        s.end += de;
        let (a, b) = (s.start.max(init), s.end.min(init + intlen * n as f64));
        let bytes = daf("DAF/SPK", &[s.clone()], LAYOUTS[li]);
        l.case("descriptor", &format!("type{dtype}-{ds}-{de}-lay{li}"), || {
            let k = SpkKernel::from_bytes(bytes).map_err(|e| format!("refused: {e}"))?;
            for (et, inside) in [(a, true), (b, true), (dn(a), false), (up(b), false), ((a + b) / 2.0, true)] {
                let r = k.state(5, 0, et);
                ensure!(r.is_ok() == inside, "epoch {et} (covered: {inside}) answered with {r:?}");
                if !inside {
                    ensure!(out_of_coverage(&r), "outside coverage reported as {r:?}");
                }
            }
            Ok(hf(&[a, b]))
        });
    });
}

/// The runtime ephemeris against the stored series of its Sun, EMB, Moon and Earth segments.
fn runtime(ctx: &Ctx, tier: Tier) {
    const RATIO: f64 = 81.300_569_074_190_62;
    const AU: f64 = 149_597_870.7;
    let mut items = vec![];
    for dtype in [2, 3] {
        for earth in [false, true] {
            for li in 0..LAYOUTS.len() {
                for order in 0..if tier == Tier::Thorough { 24 } else { 6 } {
                    items.push((dtype, earth, li, order));
                }
            }
        }
    }
    ctx.par(&items, |l, &(dtype, earth, li, order)| {
        let (init, intlen, n, nc) = (-3_456_000.0, 691_200.0, 10, 6);
        // velocities of Type 3 are stored, so give them values of their own
        let mk = |t: i32, c: i32, seed: u64, big: f64| cheb(t, c, dtype, init, intlen, n, nc, &|a, r, k| coef(seed, a, r, k) * if a < 3 { big } else { 1e-3 });
        let (sun, emb, moon, ear) = (mk(10, 0, 1, 10.0), mk(3, 0, 2, 1000.0), mk(301, 3, 3, 5.0), mk(399, 3, 4, 0.06));
        let mut segs = vec![sun.clone(), emb.clone(), moon.clone()];
        if earth {
            segs.push(ear.clone());
        }
        let perms = permutations(segs.len());
        let p = &perms[order % perms.len()];
        let segs: Vec<Seg> = p.iter().map(|&i| segs[i].clone()).collect();
        let bytes = daf("DAF/SPK", &segs, LAYOUTS[li]);
        let key = format!("type{dtype}-earth{earth}-lay{li}-order{order}");
        let (Ok(e), Ok(b)) = (RuntimeEphemeris::from_bytes(&bytes), parse_bsp(&bytes)) else {
            l.case("runtime", &key, || Err("a valid ephemeris file is refused".into()));
            return;
        };
        let e2 = RuntimeEphemeris::from_segments(b);
        let e3 = RuntimeEphemeris::from_indexed_segments(spk::parse_indexed_segments(&bytes).unwrap());
        let mut set = SpkKernelSet::default();
        set.push_bytes(&bytes).unwrap();
        for r in 0..n {
            for f in [0.0, 0.02, 0.37, 0.5, 0.81, 0.98] {
                let et0: f64 = init + intlen * (r as f64 + f);
                let j = jd_of_et(if et0 == init { et0 + 1.0 } else { et0 });
                let et = et_of_jd(j);
                l.case("runtime", &format!("{key}-r{r}-{f}"), || {
                    let q = (((et - init) / intlen).floor() as usize).min(n - 1);
                    let st = |s: &Seg| want_cheb(s, nc, q, et);
                    let (ws, we, wm, wo) = (st(&sun), st(&emb), st(&moon), st(&ear));
                    let combine = |c: &[(&[f64; 6], f64)]| -> [f64; 6] { std::array::from_fn(|i| c.iter().map(|(v, k)| v[i] * k).sum()) };
                    let earth_b = if earth { combine(&[(&we, 1.0), (&wo, 1.0)]) } else { combine(&[(&we, 1.0), (&wm, -1.0 / RATIO)]) };
                    let moon_g = if earth { combine(&[(&wm, 1.0), (&wo, -1.0)]) } else { combine(&[(&wm, (RATIO + 1.0) / RATIO)]) };
                    let earth_h = combine(&[(&earth_b, 1.0), (&ws, -1.0)]);
                    let ecl = |v: &[f64]| -> [f64; 3] {
                        let d = affn::Displacement::<ICRF, Kilometer>::new(Kilometers::new(v[0]), Kilometers::new(v[1]), Kilometers::new(v[2])).to_frame::<EclipticMeanJ2000>(&siderust::J2000);
                        [d.x().value(), d.y().value(), d.z().value()]
                    };
                    let near_edge = f == 0.0;
                    for (name, eph) in [("bytes", &e), ("segments", &e2), ("indexed", &e3)] {
                        let s = eph.try_sun_barycentric(jd(j)).map_err(|x| format!("{name}: {x}"))?;
                        let eb = eph.try_earth_barycentric(jd(j)).map_err(|x| format!("{name}: {x}"))?;
                        let eh = eph.try_earth_heliocentric(jd(j)).map_err(|x| format!("{name}: {x}"))?;
                        let mg = eph.try_moon_geocentric(jd(j)).map_err(|x| format!("{name}: {x}"))?;
                        let ev = eph.try_earth_barycentric_velocity(jd(j)).map_err(|x| format!("{name}: {x}"))?;
                        if !near_edge {
                            // the Julian date carries the epoch to some 5e-5 s
                            let tol = |v: &[f64; 6], sc: f64| sc * 1e-4 * (v[3].abs() + v[4].abs() + v[5].abs()).max(30.0) + 1e-3;
                            eq6(&[s.x().value() * AU, s.y().value() * AU, s.z().value() * AU], &ecl(&ws), tol(&ws, 1.0), 0.0).map_err(|x| format!("{name}: Sun: {x}"))?;
                            eq6(&[eb.x().value() * AU, eb.y().value() * AU, eb.z().value() * AU], &ecl(&earth_b), tol(&earth_b, 10.0), 0.0).map_err(|x| format!("{name}: Earth from barycentre: {x}"))?;
                            eq6(&[eh.x().value() * AU, eh.y().value() * AU, eh.z().value() * AU], &ecl(&earth_h), tol(&earth_h, 10.0), 0.0).map_err(|x| format!("{name}: Earth from Sun: {x}"))?;
                            eq6(&[mg.x().value(), mg.y().value(), mg.z().value()], &ecl(&moon_g), tol(&moon_g, 1.0), 0.0).map_err(|x| format!("{name}: Moon from Earth: {x}"))?;
                            let w = ecl(&earth_b[3..]);
                            let g = [ev.x().value(), ev.y().value(), ev.z().value()].map(|v| v * AU / 86400.0);
                            let m = w.iter().fold(0.0f64, |m, v| m.max(v.abs()));
                            eq6(&g, &w, 1e-8 * m + 1e-7, 0.0).map_err(|x| format!("{name}: Earth velocity: {x}"))?;
                        }
                        let direct = [eph.sun_barycentric(jd(j)), eph.earth_barycentric(jd(j))];
                        ensure!(direct[0].x() == s.x() && direct[0].y() == s.y() && direct[1].x() == eb.x() && direct[1].z() == eb.z(), "{name}: checked and unchecked interfaces differ");
                        ensure!(eph.moon_geocentric(jd(j)).z() == mg.z() && eph.earth_heliocentric(jd(j)).y() == eh.y() && eph.earth_barycentric_velocity(jd(j)).x() == ev.x(), "{name}: checked and unchecked interfaces differ");
                    }
                    if !near_edge {
                        let g = set.try_geometric_state(399, 0, jd(j)).map_err(|x| x.to_string())?;
                        let tol = 1e-3 * (earth_b[3].abs() + earth_b[4].abs() + earth_b[5].abs()).max(30.0) + 1e-3;
                        eq6(&[g.x().value(), g.y().value(), g.z().value()], &earth_b[..3], tol, 0.0).map_err(|x| format!("kernel set: Earth: {x}"))?;
                        let g = set.try_geometric_state(301, 399, jd(j)).map_err(|x| x.to_string())?;
                        eq6(&[g.x().value(), g.y().value(), g.z().value()], &moon_g[..3], tol, 0.0).map_err(|x| format!("kernel set: Moon: {x}"))?;
                        let g = set.try_geometric_state(10, 399, jd(j)).map_err(|x| x.to_string())?;
                        eq6(&[g.x().value(), g.y().value(), g.z().value()], &[-earth_h[0], -earth_h[1], -earth_h[2]], tol, 0.0).map_err(|x| format!("kernel set: Sun: {x}"))?;
                    }
                    Ok(hf(&earth_b))
                });
            }
        }
        for et in [init - 0.01, init + intlen * n as f64 + 0.01, f64::NAN] {
            l.case("runtime-outside", &format!("{key}-{et}"), || {
                let j = jd(if et.is_nan() { return Ok(0) } else { jd_of_et(et) });
                ensure!(e.try_sun_barycentric(j).is_err() && e.try_earth_barycentric(j).is_err() && e.try_moon_geocentric(j).is_err() && e.try_earth_barycentric_velocity(j).is_err(), "an epoch outside coverage is answered");
                Ok(1)
            });
        }
    });
}

/// Lagrange interpolation by the barycentric formula.
fn lagrange(xs: &[f64], ys: &[f64], x: f64) -> f64 {
    let (mut num, mut den) = (0.0, 0.0);
    for i in 0..xs.len() {
        let w: f64 = (0..xs.len()).filter(|&j| j != i).map(|j| 1.0 / (xs[i] - xs[j])).product();
        num += w / (x - xs[i]) * ys[i];
        den += w / (x - xs[i]);
    }
    num / den
}
/// Hermite interpolation (value and derivative) from the cardinal basis.
fn hermite(xs: &[f64], ys: &[f64], vs: &[f64], x: f64) -> (f64, f64) {
    let (mut p, mut d) = (0.0, 0.0);
    for i in 0..xs.len() {
        let l: f64 = (0..xs.len()).filter(|&j| j != i).map(|j| (x - xs[j]) / (xs[i] - xs[j])).product();
        let li: f64 = (0..xs.len()).filter(|&j| j != i).map(|j| 1.0 / (xs[i] - xs[j])).sum();
        let dl: f64 = (0..xs.len())
            .filter(|&m| m != i)
            .map(|m| (0..xs.len()).filter(|&j| j != i && j != m).map(|j| (x - xs[j]) / (xs[i] - xs[j])).product::<f64>() / (xs[i] - xs[m]))
            .sum();
        let (a, da) = (1.0 - 2.0 * (x - xs[i]) * li, -2.0 * li);
        p += ys[i] * a * l * l + vs[i] * (x - xs[i]) * l * l;
        d += ys[i] * (da * l * l + 2.0 * a * l * dl) + vs[i] * (l * l + 2.0 * (x - xs[i]) * l * dl);
    }
    (p, d)
}
fn discrete_states(ctx: &Ctx, tier: Tier) {
    let th = tier == Tier::Thorough;
    let mut items = vec![];
    for (dtype, sizes) in [(9, if th { (2..=10).collect::<Vec<usize>>() } else { vec![2, 3, 4, 6, 8] }), (13, if th { (2..=8).collect() } else { vec![2, 3, 4, 5] })] {
        for &w in &sizes {
            for n in [w, w + 1, w + 2, 2 * w + 1, 12, 101, 250].into_iter().filter(|n| *n >= w && (th || *n < 120)) {
                for grid in 0..3 {
                    for poly in [true, false] {
                        for li in [0, 1, 3] {
                            items.push((dtype, w, n, grid, poly, li));
                        }
                    }
                }
            }
        }
    }
    ctx.par(&items, |l, &(dtype, w, n, grid, poly, li)| {
        let epochs: Vec<f64> = (0..n)
            .map(|i| match grid {
                0 => 60.0 * i as f64,
                1 => -1.0e8 + 300.0 * i as f64,
                _ => 50.0 * i as f64 + 17.0 * ((i * 7 % 5) as f64) / 5.0,
            })
            .collect();
        let x0 = epochs[0];
        // a polynomial the window reproduces exactly, or an irregular table
        let deg = if dtype == 9 { w - 1 } else { 2 * w - 1 };
        let f = |a: usize, t: f64| -> (f64, f64) {
            let u = (t - x0) / 600.0;
            let (mut p, mut d) = (0.0, 0.0);
            for k in (0..=deg.min(5)).rev() {
                d = d * u + p;
                p = p * u + coef(11, a, 0, k) * 0.1;
            }
            (p, d / 600.0)
        };
        let states: Vec<[f64; 6]> = epochs
            .iter()
            .enumerate()
            .map(|(i, &t)| {
                std::array::from_fn(|a| match (poly, a < 3) {
                    (true, true) => f(a, t).0,
                    (true, false) => if dtype == 9 { f(a, t).0 } else { f(a - 3, t).1 },
                    (false, _) => coef(5, a, i, 0) * if a < 3 { 1.0 } else { 0.01 },
                })
            })
            .collect();
        let s = discrete(-77, 399, dtype, &epochs, &states, (w - 1) as f64);
        let bytes = daf("DAF/SPK", &[s], LAYOUTS[li]);
        let key0 = format!("type{dtype}-w{w}-n{n}-grid{grid}-poly{poly}-lay{li}");
        let k = match SpkKernel::from_bytes(bytes) {
            Ok(k) => k,
            Err(e) => {
                l.case("discrete", &key0, || Err(format!("a valid kernel is refused: {e}")));
                return;
            }
        };
        for i in 0..n {
            if n > 40 && i > 8 && i < n - 8 && i % 17 != 0 && !(95..105).contains(&i) {
                continue;
            }
            l.case("discrete-node", &format!("{key0}-{i}"), || {
                let g = k.state(-77, 399, epochs[i]).map_err(|e| e.to_string())?;
                ensure!(g == states[i], "at a stored epoch the stored state {:?} is not returned: {g:?}", states[i]);
                Ok(hf(&g))
            });
            if i + 1 == n {
                continue;
            }
            for fr in [1e-6, 0.3, 0.5, 0.8, 1.0 - 1e-6] {
                let t = epochs[i] + (epochs[i + 1] - epochs[i]) * fr;
                if t <= epochs[i] || t >= epochs[i + 1] {
                    continue;
                }
                l.case("discrete", &format!("{key0}-{i}-{fr}"), || {
                    let g = k.state(-77, 399, t).map_err(|e| e.to_string())?;
                    // windows of w neighbours that hold both bracketing nodes, balanced around them
                    // to within one node unless the table ends
                    let mut cands = vec![];
                    for a in i.saturating_sub(w)..=i {
                        if a + w > n || a + w < i + 2 {
                            continue;
                        }
                        let (left, right) = (i - a + 1, a + w - i - 1);
                        let balanced = left.abs_diff(right) <= 1 || (a == 0 && left < right) || (a + w == n && right < left);
                        if balanced {
                            cands.push(a);
                        }
                    }
                    let mut msg = String::from("no candidate window");
                    for a in cands {
                        let xs = &epochs[a..a + w];
                        let col = |c: usize| -> Vec<f64> { states[a..a + w].iter().map(|s| s[c]).collect() };
                        let mut want = [0.0; 6];
                        for c in 0..3 {
                            if dtype == 9 {
                                want[c] = lagrange(xs, &col(c), t);
                                want[c + 3] = lagrange(xs, &col(c + 3), t);
                            } else {
                                let (p, d) = hermite(xs, &col(c), &col(c + 3), t);
                                want[c] = p;
                                want[c + 3] = d;
                            }
                        }
                        let m = |r: std::ops::Range<usize>| states[a..a + w].iter().flat_map(|s| s[r.clone()].to_vec()).fold(1.0f64, |m, v| m.max(v.abs()));
                        let amp = 4f64.powi(w as i32);
                        let tv = if dtype == 9 { 1e-14 * amp * m(3..6) } else { 1e-13 * amp * amp * (m(3..6) + m(0..3) / 20.0) };
                        match eq6(&g, &want, 1e-14 * amp * amp.sqrt() * m(0..3) * if dtype == 13 { amp } else { 1.0 } + 50.0 * 1e-13 * m(3..6), tv) {
                            Ok(()) => return Ok(hf(&g)),
                            Err(e) => msg = e,
                        }
                    }
                    Err(format!("epoch {t}: {msg}"))
                });
                if poly {
                    l.case("discrete-exact", &format!("{key0}-{i}-{fr}"), || {
                        let g = k.state(-77, 399, t).map_err(|e| e.to_string())?;
                        let want: [f64; 6] = std::array::from_fn(|a| if a < 3 { f(a, t).0 } else if dtype == 9 { f(a, t).0 } else { f(a - 3, t).1 });
                        let m = states.iter().flatten().fold(1.0f64, |m, v| m.max(v.abs()));
                        eq6(&g, &want, 1e-13 * 6f64.powi(w as i32) * m, 1e-13 * 16f64.powi(w as i32) * m)?;
                        Ok(hf(&g))
                    });
                }
            }
        }
        for (i, t) in [dn(epochs[0]), up(epochs[n - 1]), f64::NAN, f64::INFINITY, epochs[0] - 1e5].into_iter().enumerate() {
            l.case("discrete-outside", &format!("{key0}-{i}"), || {
                let r = k.state(-77, 399, t);
                ensure!(r.is_err(), "an epoch outside coverage is answered: {r:?}");
                Ok(1)
            });
        }
    });
}

/// Every pair of bodies of a kernel whose segments form a tree, in every segment order.
fn chains(ctx: &Ctx, tier: Tier) {
    let edges: [(i32, i32); 5] = [(3, 0), (10, 0), (301, 3), (399, 3), (-7, 399)];
    let seg = |i: usize, shift: f64, types: usize| {
        let (t, c) = edges[i];
        let p = [100.0 * (i + 1) as f64 + shift, -50.0 * (i * i) as f64, 7.0 + i as f64];
        let v = [0.5 * i as f64, -1.0, 0.25 * (i + 2) as f64];
        let (a, b) = (-100.0 - i as f64, 200.0 + i as f64);
        match types {
            0 => linear(t, c, 2, a, b, 1 + i, p, v),
            1 => linear(t, c, 3, a, b, 1 + i, p, v),
            _ => {
                let ep: Vec<f64> = (0..7).map(|k| a + (b - a) * k as f64 / 6.0).collect();
                let st: Vec<[f64; 6]> = ep.iter().map(|e| std::array::from_fn(|x| if x < 3 { p[x] + v[x] * e } else { v[x - 3] })).collect();
                discrete(t, c, if types == 2 { 9 } else { 13 }, &ep, &st, 2.0)
            }
        }
    };
    let state = |i: usize, et: f64| -> [f64; 6] {
        let p = [100.0 * (i + 1) as f64, -50.0 * (i * i) as f64, 7.0 + i as f64];
        let v = [0.5 * i as f64, -1.0, 0.25 * (i + 2) as f64];
        std::array::from_fn(|x| if x < 3 { p[x] + v[x] * et } else { v[x - 3] })
    };
    let perms = permutations(5);
    let step = if tier == Tier::Thorough { 1 } else { 5 };
    let mut items = vec![];
    for p in (0..perms.len()).step_by(step) {
        for t in 0..4 {
            for li in [0, 1, 2] {
                items.push((p, t, li));
            }
        }
    }
    ctx.par(&items, |l, &(p, t, li)| {
        let pi = p;
        // an older copy of every segment, with shifted values, comes first in the file
        let mut segs: Vec<Seg> = perms[p].iter().map(|&i| seg(i, 1e4, (t + i) % 4)).collect();
        segs.extend(perms[p].iter().map(|&i| seg(i, 0.0, t)));
        let bytes = daf("DAF/SPK", &segs, LAYOUTS[li]);
        let Ok(k) = SpkKernel::from_bytes(bytes) else {
            l.case("chain", &format!("p{p}-t{t}-lay{li}"), || Err("a valid kernel is refused".into()));
            return;
        };
        let bodies = [0, 3, 10, 301, 399, -7];
        // the typed provider of the orbit-determination layer answers as the kernel does, for every pair of bodies
        let shared = std::sync::Arc::new(k);
        let k = &*shared;
        for b in bodies {
            let p = [SpiceEphemerisProvider::<Geocentric>::from_arc(shared.clone(), b), SpiceEphemerisProvider::<Geocentric>::from_arc(shared.clone(), b).clone()];
            for a in bodies {
                for et in [-102.5, -100.0, -31.7, 0.0, 66.0, 200.0, 203.5] {
                    l.case("typed provider", &format!("p{p0}-t{t}-lay{li}-{a}-{b}-{et}", p0 = pi), || {
                        let w = k.state(a, b, et);
                        for p in &p {
                            ensure!(p.center_naif_id() == b && p.kernel().state(a, b, et).is_ok() == w.is_ok(), "centre or kernel");
                            let at = Time::<TDB>::from_raw_j2000_seconds(siderust::qtty::Seconds::new(et)).map_err(|e| e.to_string())?;
                            for (r, tol) in [(EphemerisProvider::state(p, a, et), 0.0), (p.state_at(a, at), 1e-6), (EphemerisProvider::state_at(p, a, at), 1e-6)] {
                                match (&r, &w) {
                                    (Ok(s), Ok(w)) => {
                                        let g = [s.position.x().value(), s.position.y().value(), s.position.z().value(), s.velocity_km_s.x().value(), s.velocity_km_s.y().value(), s.velocity_km_s.z().value()];
                                        for i in 0..6 {
                                            ensure!((g[i] - w[i]).abs() <= tol, "component {i}: {} and {}", g[i], w[i]);
                                        }
                                    }
                                    (Err(x), Err(y)) => ensure!(std::mem::discriminant(x) == std::mem::discriminant(y), "{x:?} and {y:?}"),
                                    _ => return Err(format!("{r:?} and {w:?}")),
                                }
                            }
                        }
                        Ok(hstr(&format!("{a}{b}{et}")) | 1)
                    });
                }
            }
        }
        let to_ssb = |mut b: i32, et: f64| -> [f64; 6] {
            let mut s = [0.0; 6];
            while b != 0 {
                let i = edges.iter().position(|e| e.0 == b).unwrap();
                let x = state(i, et);
                for c in 0..6 {
                    s[c] += x[c];
                }
                b = edges[i].1;
            }
            s
        };
        for a in bodies {
            for b in bodies {
                for et in [-100.0, -31.7, 0.0, 66.0, 199.9, 200.0] {
                    l.case("chain", &format!("p{p}-t{t}-lay{li}-{a}-{b}-{et}"), || {
                        let g = k.state(a, b, et).map_err(|e| e.to_string())?;
                        let (x, y) = (to_ssb(a, et), to_ssb(b, et));
                        let want: [f64; 6] = std::array::from_fn(|i| x[i] - y[i]);
                        eq6(&g, &want, 1e-8, 1e-9)?;
                        Ok(if a == b { 0 } else { hf(&g) })
                    });
                }
                // epochs that only some of the segments on the way cover
                for et in [-102.5, 203.5] {
                    l.case("chain-edge", &format!("p{p}-t{t}-lay{li}-{a}-{b}-{et}"), || {
                        let mut path: Vec<usize> = vec![];
                        let up = |mut b: i32| -> Vec<usize> {
                            let mut v = vec![];
                            while b != 0 {
                                let i = edges.iter().position(|e| e.0 == b).unwrap();
                                v.push(i);
                                b = edges[i].1;
                            }
                            v
                        };
                        let (u, v) = (up(a), up(b));
                        path.extend(u.iter().filter(|i| !v.contains(i)));
                        path.extend(v.iter().filter(|i| !u.contains(i)));
                        let covered = path.iter().all(|&i| et >= -100.0 - i as f64 && et <= 200.0 + i as f64);
                        let r = k.state(a, b, et);
                        ensure!(r.is_ok() == covered, "covered: {covered}, answer: {r:?}");
                        ensure!(covered || out_of_coverage(&r), "missing coverage reported as {r:?}");
                        Ok(hf(&[et, a as f64, b as f64]))
                    });
                }
            }
        }
        for (a, b) in [(0, 12345), (777, 0), (301, -8), (5, 6)] {
            l.case("chain-absent", &format!("p{p}-t{t}-lay{li}-{a}-{b}"), || {
                ensure!(matches!(k.state(a, b, 0.0), Err(SpiceError::NoChain { .. })), "a pair without a chain is answered: {:?}", k.state(a, b, 0.0));
                Ok(1)
            });
        }
    });
}

type Q = [f64; 4];
fn norm(q: Q) -> Q {
    let n = q.iter().map(|x| x * x).sum::<f64>().sqrt();
    q.map(|x| x / n)
}
/// Angle between two attitudes seen as points of the projective sphere.
fn qang(a: Q, b: Q) -> f64 {
    let s = a.iter().zip(b).map(|(x, y)| x * y).sum::<f64>().signum();
    let d = (0..4).map(|i| (a[i] - s * b[i]).powi(2)).sum::<f64>().sqrt();
    2.0 * (d / 2.0).min(1.0).asin()
}
fn attitude(ctx: &Ctx, tier: Tier) {
    let th = tier == Tier::Thorough;
    let qs: Vec<Q> = vec![
        [1.0, 0.0, 0.0, 0.0], norm([0.0, 1.0, 0.0, 0.0]), norm([1.0, 1.0, 0.0, 0.0]), norm([1.0, 0.01, 0.0, 0.0]), norm([1.0, 1e-6, 1e-6, 0.0]),
        norm([-1.0, 0.2, -0.4, 0.7]), norm([-1.0, 0.0, 0.0, 1e-9]), norm([0.3, -0.5, 0.5, 0.1]), [2.0, 0.0, 2.0, 0.0],
    ];
    let mut items = vec![];
    for i in 0..qs.len() {
        for j in 0..qs.len() {
            for k in if th { 0..qs.len() } else { 0..2 } {
                for li in 0..LAYOUTS.len() {
                    items.push((i, j, (i + 2 * j + k) % qs.len(), li));
                }
            }
        }
    }
    ctx.par(&items, |l, &(i, j, k, li)| {
        let recs = [(100.0, qs[i]), (110.0, qs[j]), (130.0, qs[k])];
        let perm = &permutations(3)[(i + j + k) % 6];
        let shuffled: Vec<(f64, Q)> = perm.iter().map(|&p| recs[p]).collect();
        let old: Vec<(f64, Q)> = recs.iter().map(|(t, _)| (*t, [0.6, 0.0, 0.8, 0.0])).collect();
        // an older segment of the same instrument, one of another instrument, and a partial later one
        let segs = [ck(-82000, 1, &old, 100.0, 130.0), ck(-82001, 1, &[(0.0, qs[j]), (5.0, qs[i])], 0.0, 5.0), ck(-82000, 1, &shuffled, 100.0, 130.0)];
        let bytes = daf("DAF/CK", &segs, LAYOUTS[li]);
        let key0 = format!("{i}-{j}-{k}-lay{li}");
        let kern = match CkKernel::from_bytes(bytes) {
            Ok(k) => k,
            Err(e) => {
                l.case("ck", &key0, || Err(format!("a valid kernel is refused: {e}")));
                return;
            }
        };
        for (a, b) in [(0, 1), (1, 2)] {
            for f in [0.0, 1e-6, 0.25, 0.5, 0.9, 1.0] {
                let t = recs[a].0 + (recs[b].0 - recs[a].0) * f;
                l.case("ck", &format!("{key0}-{a}-{f}"), || {
                    let g = kern.rotation(-82000, t).map_err(|e| e.to_string())?;
                    ensure!(close(g.iter().map(|x| x * x).sum::<f64>(), 1.0, 1e-12), "not a unit quaternion: {g:?}");
                    let (p, q) = (norm(recs[a].1), norm(recs[b].1));
                    let full = qang(p, q);
                    // at half a turn the shortest way is not unique; both halves are still in proportion
                    let (da, db) = (qang(p, g), qang(q, g));
                    ensure!(close(da, f * full, 3e-6) && close(db, (1.0 - f) * full, 3e-6), "at fraction {f} of {full} rad the attitude is {da} and {db} rad from its neighbours");
                    Ok(hf(&g))
                });
            }
        }
        for t in [dn(100.0), up(130.0), 0.0, f64::NAN, f64::INFINITY] {
            l.case("ck-outside", &format!("{key0}-{t:e}"), || {
                ensure!(kern.rotation(-82000, t).is_err(), "a clock outside coverage is answered");
                ensure!(kern.rotation(-5, 101.0).is_err(), "an absent instrument is answered");
                Ok(1)
            });
        }
    });
    // NAIF storage order: all quaternions, then all clock values, then the count
    let mut l = Local::default();
    l.case("ck-naif-order", "two-records", || {
        let q = [norm([1.0, 1.0, 0.0, 0.0]), [1.0, 0.0, 0.0, 0.0]];
        let mut words: Vec<f64> = q.iter().flatten().copied().collect();
        words.extend([100.0, 110.0, 2.0]);
        let b = daf("DAF/CK", &[Seg { ints: [-82000, 1, 1, 0], start: 100.0, end: 110.0, words }], PLAIN);
        match CkKernel::from_bytes(b).and_then(|k| k.rotation(-82000, 100.0)) {
            Ok(g) => ensure!(qang(g, q[0]) < 1e-9, "a NAIF Type 1 segment is read as {g:?}, stored {:?}", q[0]),
            Err(e) => return Err(format!("a NAIF Type 1 segment is not read: {e}")),
        }
        Ok(1)
    });
    ctx.merge(l);
}

pub fn run(tier: Tier) -> Ctx {
    let mut ctx = Ctx::new("C10", "exploration", tier,
        "product of segment types 2, 3, 9, 13 and CK 1, series lengths or window sizes, record counts, epoch scales, five file layouts (byte order, reserved records, chained and out-of-order summary records, data before or after) and epochs at, one ulp beside and between every record edge; every ordered pair of bodies of a five-edge tree for segment orders and types with a superseded copy of each segment; Sun/EMB/Moon/Earth files for the runtime ephemeris in all segment orders. Oracle: direct T/U recurrences, barycentric Lagrange and cardinal Hermite bases, geodesic proportions. Non-trivial: a state compared or a refusal confirmed.");
    ctx.assumptions = vec![
        "a Type 9 or 13 window is any one with both bracketing nodes that is balanced to within one node, or ends with the table".into(),
        "readers keyed by Julian date are compared within the epoch resolution of a Julian date (about 5e-5 s)".into(),
        "NAIF reader agreement: TT to ET by the two-term NAIF formula that the code documents".into(),
    ];
    chebyshev(&ctx, tier);
    runtime(&ctx, tier);
    discrete_states(&ctx, tier);
    chains(&ctx, tier);
    attitude(&ctx, tier);
    ctx
}
