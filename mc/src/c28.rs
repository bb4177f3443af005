//! C28: standard atmosphere, spacecraft clocks and leap seconds: inverses, order, steps.
use crate::core::*;
use siderust::bodies::aircraft::isa::*;
use siderust::formats::spice::{LeapSecondKernel, SclkKernel};
use siderust::qtty::{Meters, Pascals};

/// Days from 2000-01-01 0h by counting days (proleptic Gregorian).
fn days(y: i64, m: i64, d: i64) -> i64 {
    let leap = |y: i64| (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    let mut n = 0;
    for k in 2000..y {
        n += if leap(k) { 366 } else { 365 };
    }
    for k in y..2000 {
        n -= if leap(k) { 366 } else { 365 };
    }
    let ml = [31, if leap(y) { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    n + ml[..(m - 1) as usize].iter().sum::<i64>() + d - 1
}
pub fn run(tier: Tier) -> Ctx {
    let mut ctx = Ctx::new("C28", "exploration", tier,
        "altitude lattices from the deepest valley to 60 km with all neighbours of the layer boundary; every spacecraft-clock table of up to four partitions over alphabets of lengths, rates and gaps, in every order of its records, probed at and around every partition start; every leap-second table of up to four steps in every order and spelling, probed at and around each step; the civil date of every month 1901-2099. Non-trivial: a value was compared.");
    ctx.assumptions = vec!["clock tables have positive rates and non-overlapping partitions".into()];
    // ---- atmosphere ---------------------------------------------------------------------------
    let mut hs: Vec<f64> = linspace(-2000.0, 25_000.0, ctx.pick(5401, 54_001));
    hs.extend(linspace(25_000.0, 60_000.0, 351));
    for k in 1..=12 {
        hs.push(11_000.0 + 10f64.powi(-k));
        hs.push(11_000.0 - 10f64.powi(-k));
    }
    hs.extend([1e-6, -1e-6, 20_000.0, 0.0]);
    hs.sort_by(f64::total_cmp);
    hs.dedup();
    let pr = |h: f64| pressure_at_altitude(Meters::new(h)).value();
    let hp = |p: f64| pressure_altitude_m(Pascals::new(p)).value();
    let te = |h: f64| temperature_at_altitude(Meters::new(h)).value();
    // published ISA levels: altitude, temperature, pressure
    let mut l = Local::default();
    for (h, t, p) in [(-1000.0, 294.651, 113_929.0), (0.0, 288.15, 101_325.0), (1000.0, 281.65, 89_874.6), (3000.0, 268.65, 70_108.5), (5000.0, 255.65, 54_019.9), (8000.0, 236.15, 35_599.8), (10_000.0, 223.15, 26_436.3), (11_000.0, 216.65, 22_632.1), (12_000.0, 216.65, 19_330.4), (15_000.0, 216.65, 12_044.6), (18_000.0, 216.65, 7_504.8), (20_000.0, 216.65, 5_474.9)] {
        l.case("isa-table", &format!("{h}"), || {
            ensure!(close(te(h), t, 0.01) && rel(pr(h), p) < 2e-4, "{} K, {} Pa instead of {t} K, {p} Pa", te(h), pr(h));
            Ok(hf(&[te(h), pr(h)]))
        });
    }
    for w in hs.windows(2) {
        let (a, b) = (w[0], w[1]);
        l.case("isa", &format!("{b}"), || {
            let (pa, pb) = (pr(a), pr(b));
            ensure!(pb <= pa && (pb < pa || b - a < 1e-8) && pb > 0.0, "pressure {pa} at {a}, {pb} at {b}");
            // hydrostatic balance across the interval (also across the boundary): dp = -p g M/(R T) dh
            let slope = 9.80665 * 0.0289644 / 8.314462618;
            let exp = if a >= 11_000.0 || b <= 11_000.0 {
                let (ta, tb) = (if a >= 11_000.0 { 216.65 } else { 288.15 - 0.0065 * a }, if b >= 11_000.0 { 216.65 } else { 288.15 - 0.0065 * b });
                let tm = if (ta - tb).abs() < 1e-9 { ta } else { (ta - tb) / (ta / tb).ln() };
                pa * (-slope * (b - a) / tm).exp()
            } else { pa * (-slope * (b - a) / 216.65).exp() };
            ensure!(rel(pb, exp) < 1e-6, "pressure {pb} at {b} after {pa} at {a}; hydrostatic balance gives {exp}");
            ensure!(close(hp(pb), b, 1e-6), "pressure altitude of {b} comes back as {}", hp(pb));
            ensure!(hp(pb) >= hp(pa), "pressure altitude not monotone");
            let t = te(b);
            ensure!(close(t, if b >= 11_000.0 { 216.65 } else { 288.15 - 0.0065 * b }, 1e-9), "temperature {t} at {b}");
            let g = geopotential_altitude_m(Meters::new(b)).value();
            ensure!(close(g, 6_356_766.0 * b / (6_356_766.0 + b), 1e-6) && g <= b, "geopotential {g} of {b}");
            let z = geometric_altitude_m(Meters::new(g)).value();
            ensure!(close(z, b, 1e-6), "geometric altitude of {b} comes back as {z}");
            let z2 = geopotential_altitude_m(Meters::new(geometric_altitude_m(Meters::new(b)).value())).value();
            ensure!(close(z2, b, 1e-6), "geopotential altitude of {b} comes back as {z2}");
            Ok(hf(&[pb, t]))
        });
    }
    // pressures directly
    for i in 0..=ctx.pick(2000, 20_000) {
        let p = 100.0 + (115_000.0 - 100.0) * i as f64 / ctx.pick(2000.0, 20_000.0);
        l.case("isa-pressure", &format!("{p}"), || {
            let h = hp(p);
            ensure!(rel(pr(h), p) < 1e-9, "pressure {p} comes back as {}", pr(h));
            Ok(hf(&[h]))
        });
    }
    ctx.merge(l);
    // ---- spacecraft clocks -----------------------------------------------------------------------
    // a partition: (length in seconds, rate, gap in ticks after it)
    let parts = [(10.0, 1.0, 0.0), (100.0, 256.0, 0.0), (50.0, 0.999_75, 4.0), (1.0e7, 65536.0, 1000.0), (3600.0, 2.5, 0.0)];
    let starts = [(-3.0e8, 0.0), (0.0, 0.0), (7.5e8, 12_345.0)];
    let mut tabs = vec![];
    for s in sequences(parts.len(), ctx.pick(3, 4)).into_iter().filter(|s| !s.is_empty()) {
        for st in 0..starts.len() {
            tabs.push((s.clone(), st));
        }
    }
    ctx.par(&tabs, |l, (s, si)| {
        // (ticks, et, rate), ends of each partition in ticks
        let mut tab: Vec<(f64, f64, f64)> = vec![];
        let mut ends = vec![];
        let (mut et, mut tk) = starts[*si];
        for i in s {
            let (len, rate, gap) = parts[*i];
            tab.push((tk, et, rate));
            et += len;
            tk += len * rate;
            ends.push(tk);
            tk += gap;
        }
        *ends.last_mut().unwrap() = f64::INFINITY;
        for perm in permutations(tab.len()) {
            for other in [false, true] {
                l.case("sclk", &format!("{s:?} start={si} order={perm:?} second-clock={other}"), || {
                    let mut src = String::from("KPL/SCLK\n\\begindata\n");
                    if other {
                        src += "SCLK01_COEFFICIENTS_82 = ( 5.0 6.0 7.0 )\nSCLK01_COEFFICIENTS_8 = ( 1 2 3 )\n";
                    }
                    src += "SCLK01_COEFFICIENTS_-82 = (\n";
                    for i in &perm {
                        src += &format!("  {:?}  {:?}\n {:?}\n", tab[*i].0, tab[*i].1, tab[*i].2);
                    }
                    src += ")\n\\begintext\n";
                    let ks = guard(|| SclkKernel::from_text(&src))?.map_err(|e| e.to_string())?;
                    ensure!(ks.len() == if other { 3 } else { 1 }, "{} clocks", ks.len());
                    let k = ks.iter().find(|k| k.sc_id == -82).ok_or("clock missing")?;
                    ensure!(k.coefficients.len() == tab.len(), "{} partitions", k.coefficients.len());
                    let mut h = vec![];
                    for (i, p) in tab.iter().enumerate() {
                        let len = parts[s[i]].0;
                        for f in [-1e-3, 0.0, 1e-3, 0.37, 0.999, 1.0, 7.3] {
                            let t = p.1 + f * len;
                            // partition in force at t
                            let j = tab.iter().rposition(|q| q.1 <= t);
                            let got = guard(|| k.et_to_sclkdp(t))?;
                            let Some(j) = j else { ensure!(got.is_err(), "time {t} before the first partition converted to {got:?}"); continue };
                            let want = tab[j].0 + (t - tab[j].1) * tab[j].2;
                            let g = got.map_err(|e| format!("time {t} refused: {e}"))?;
                            ensure!((g - want).abs() <= 1e-9 * (1.0 + want.abs()), "time {t} is {g} ticks instead of {want}");
                            // back
                            let b = guard(|| k.sclkdp_to_et(g))?.map_err(|e| format!("{g} ticks refused: {e}"))?;
                            ensure!((b - t).abs() <= 1e-9 * (1.0 + t.abs()) + 1e-9 * g.abs() / tab[j].2 , "time {t} comes back as {b}");
                            h.push(g);
                        }
                        for f in [-1e-3, 0.0, 1e-3, 0.37, 0.999] {
                            let c = p.0 + f * len * p.2;
                            let j = tab.iter().rposition(|q| q.0 <= c);
                            let got = guard(|| k.sclkdp_to_et(c))?;
                            let Some(j) = j else { ensure!(got.is_err(), "{c} ticks before the first partition converted"); continue };
                            let g = got.map_err(|e| format!("{c} ticks refused: {e}"))?;
                            let want = tab[j].1 + (c - tab[j].0) / tab[j].2;
                            ensure!((g - want).abs() <= 1e-9 * (1.0 + want.abs()), "{c} ticks is {g} s instead of {want}");
                            if c < ends[j] - 1e-6 * (1.0 + c.abs()) {
                                let b = guard(|| k.et_to_sclkdp(g))?.map_err(|e| e.to_string())?;
                                ensure!((b - c).abs() <= 1e-7 * (1.0 + c.abs()) + 2e-7 * tab[j].2, "{c} ticks come back as {b}");
                            }
                        }
                    }
                    Ok(hf(&h))
                });
            }
        }
    });
    // ---- leap seconds -------------------------------------------------------------------------------
    let mut l = Local::default();
    let mon = ["JAN", "FEB", "MAR", "APR", "MAY", "JUN", "JUL", "AUG", "SEP", "OCT", "NOV", "DEC"];
    let lsk = |pairs: &[(f64, String)]| {
        let mut s = String::from("KPL/LSK\n\\begindata\nDELTET/DELTA_T_A = 32.184\nDELTET/K = 1.657D-3\nDELTET/DELTA_AT = ( ");
        for (d, e) in pairs {
            s += &format!("{d}, {e}\n ");
        }
        s + ")\n\\begintext\n"
    };
    // every month start
    for y in 1801i64..=2399 {
        l.case("leap-date", &format!("{y}"), || {
            for m in 1..=12 {
                for d in [1i64, 17, 28] {
                    let k = guard(|| LeapSecondKernel::from_text(&lsk(&[(10.0, format!("@{y}-{}-{d}", mon[m as usize - 1]))])))?.map_err(|e| e.to_string())?;
                    // a calendar date is UTC, the table runs on TDB
                    let want = days(y, m, d) as f64 * 86400.0 - 43200.0 + 32.184 + 10.0;
                    ensure!(k.leap_table.len() == 1 && (k.leap_table[0].0 - want).abs() < 1e-3 && k.leap_table[0].1 == 10.0, "@{y}-{m}-{d} is {:?} instead of {want}", k.leap_table);
                }
            }
            Ok(y as u64)
        });
    }
    let eps = [("@1972-JAN-1", days(1972, 1, 1)), ("@1981-JUL-1", days(1981, 7, 1)), ("@1999-JAN-1", days(1999, 1, 1)), ("@2006-JAN-1", days(2006, 1, 1)), ("@2017-jan-1", days(2017, 1, 1))];
    for n in 1..=4usize {
        for start in 0..=eps.len() - n {
            for perm in permutations(n) {
                for num in [false, true] {
                    l.case("leap", &format!("n={n} from={start} order={perm:?} numeric={num}"), || {
                        let steps: Vec<(f64, f64)> = (0..n).map(|i| { let d = 10.0 + 3.0 * i as f64; (eps[start + i].1 as f64 * 86400.0 - 43200.0 + 32.184 + d, d) }).collect();
                        let pairs: Vec<(f64, String)> = perm.iter().map(|i| (steps[*i].1, if num { format!("{:.3}", steps[*i].0) } else { eps[start + i].0.to_string() })).collect();
                        let k = guard(|| LeapSecondKernel::from_text(&lsk(&pairs)))?.map_err(|e| e.to_string())?;
                        ensure!(k.delta_t_a == 32.184, "delta_t_a {}", k.delta_t_a);
                        for (i, s) in steps.iter().enumerate() {
                            for off in [-1e6, -1.0, -1e-3, 0.0, 1e-3, 1.0, 1e6] {
                                if off == 0.0 && !num {
                                    continue; // exact only where the kernel states the instant
                                }
                                let t = s.0 + off;
                                let want = if off >= 0.0 { s.1 } else if i == 0 { 0.0 } else { steps[i - 1].1 };
                                let (a, b) = (k.tai_minus_utc_at(t), k.tdb_minus_utc_at(t));
                                ensure!(a == want && close(b, want + 32.184, 1e-9), "TAI-UTC {a}, TDB-UTC {b} instead of {want} at step {i} {off:+} s");
                            }
                        }
                        ensure!(k.tai_minus_utc_at(-1e12) == 0.0 && k.tai_minus_utc_at(1e12) == steps[n - 1].1, "far ends");
                        Ok(n as u64)
                    });
                }
            }
        }
    }
    ctx.merge(l);
    ctx
}
