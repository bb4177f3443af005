//! C34: air mass, extinction, scattering, passbands and moonlight.
use crate::core::*;
use siderust::atmosphere::*;
use siderust::event::lunar::photometry as lp;
use siderust::photometry::passbands;
use siderust::qtty::*;

const DEG: f64 = std::f64::consts::PI / 180.0;
fn rad(z: f64) -> Radians {
    Radians::new(z)
}
fn nm(x: f64) -> Nanometers {
    Nanometers::new(x)
}

/// path length through an exponential atmosphere on a round Earth over the vertical one
fn path(z: f64) -> f64 {
    let (r, h) = (6371.0, 8.4);
    let (n, top) = (4000, 120.0);
    let (mut s, mut v) = (0.0, 0.0);
    for i in 0..n {
        // substitution y = u^2 keeps the horizon integrable
        let u = (i as f64 + 0.5) / n as f64 * f64::sqrt(top);
        let y = u * u;
        let w = (-y / h).exp() * 2.0 * u;
        let k = r / (r + y) * z.sin();
        s += w / (1.0 - k * k).sqrt();
        v += w;
    }
    s / v
}

fn airmasses(ctx: &Ctx) {
    let n = if ctx.tier == Tier::Thorough { 90_000 } else { 9_000 };
    let items: Vec<usize> = (0..=n).collect();
    ctx.par(&items, |l, &i| {
        let z = i as f64 / n as f64 * 90.0 * DEG;
        let z2 = (i + 1) as f64 / n as f64 * 90.0 * DEG;
        l.case("air mass", &format!("{}", z / DEG), || {
            let sec = 1.0 / z.cos();
            let p = airmass::<PlaneParallel>(rad(z)).value();
            let y = airmass::<Young1994>(rad(z)).value();
            let ro = airmass::<Rozenberg1966>(rad(z)).value();
            let ks = airmass::<KrisciunasSchaefer1991>(rad(z)).value();
            ensure!((p / sec - 1.0).abs() < 1e-12, "plane-parallel {p}, secant {sec}");
            ensure!((DefaultAirmassFormula::airmass(rad(z)).value(), airmass::<DefaultAirmassFormula>(rad(z)).value()) == (ks, ks), "the default formula");
            // the published formulas, in other arrangements
            let c = z.cos();
            let cs = [1.002432, 0.148386, 0.0096467, 0.149864, 0.0102963, 0.000303978];
            let want = ((cs[0] * c + cs[1]) * c + cs[2]) / (((c + cs[3]) * c + cs[4]) * c + cs[5]);
            ensure!((y / want - 1.0).abs() < 1e-11, "Young {y}, published {want}");
            let want = (c + f64::exp(-11.0 * c) / 40.0).recip();
            ensure!((ro / want - 1.0).abs() < 1e-11, "Rozenberg {ro}, published {want}");
            let want = 5.0 / (25.0 - 24.0 * (1.0 - c * c)).sqrt();
            ensure!((ks / want - 1.0).abs() < 1e-11, "Krisciunas-Schaefer {ks}, published {want}");
            for (name, x) in [("Young", y), ("Rozenberg", ro), ("Krisciunas-Schaefer", ks)] {
                ensure!(x > 0.9995 && x < sec + 2e-4 && x < 41.0, "{name} {x}, secant {sec}");
            }
            if z < 60.0 * DEG {
                ensure!((y / sec - 1.0).abs() < 0.006 && (ro / sec - 1.0).abs() < 0.004 && (ks / sec - 1.0).abs() < 0.06, "far from the secant: {y} {ro} {ks} {sec}");
            }
            if i < n {
                for (name, a, b) in [("plane", p, airmass::<PlaneParallel>(rad(z2)).value()), ("Young", y, airmass::<Young1994>(rad(z2)).value()), ("Rozenberg", ro, airmass::<Rozenberg1966>(rad(z2)).value()), ("Krisciunas-Schaefer", ks, airmass::<KrisciunasSchaefer1991>(rad(z2)).value())] {
                    ensure!(b > a || (z < 0.3 * DEG && b > a - 1e-9), "{name} does not grow: {a} then {b}");
                }
            }
            if i % (n / 90) == 0 && z < 88.0 * DEG {
                let want = path(z);
                ensure!((y / want - 1.0).abs() < 0.05 && (ro / want - 1.0).abs() < 0.05, "Young {y}, Rozenberg {ro}, ray through an exponential atmosphere {want}");
            }
            Ok(hf(&[p, y, ro, ks]) | 1)
        });
        // the emitting layer of the airglow: same chord geometry
        for h in [1.0, 87.0, 250.0, 1e5] {
            l.case("van Rhijn", &format!("{},{h}", z / DEG), || {
                let r = 6371.0;
                let v = van_rhijn_factor(rad(z), Kilometers::new(h)).value();
                let w = van_rhijn_factor_with_radius(rad(z), Kilometers::new(h), Kilometers::new(r)).value();
                ensure!(v == w, "mean radius: {v} {w}");
                // distance along the ray to height h, and its rate of change with h: that rate is the factor
                let d = |h: f64| (r * r * z.cos().powi(2) + 2.0 * r * h + h * h).sqrt() - r * z.cos();
                let e = 1e-3 * h;
                let rate = (d(h + e) - d(h - e)) / (2.0 * e);
                ensure!((v / rate - 1.0).abs() < 2e-5, "factor {v}, path through a thin shell {rate}");
                ensure!(v >= 1.0 && v <= 1.0 / (1.0 - (r / (r + h)).powi(2)).sqrt() * (1.0 + 1e-9) && (i > 0 || v == 1.0), "factor {v}");
                let s = van_rhijn_factor_with_radius(rad(z), Kilometers::new(h * 2.5), Kilometers::new(r * 2.5)).value();
                ensure!((s / v - 1.0).abs() < 1e-9, "depends on the scale");
                Ok(hf(&[v]) | 1)
            });
        }
    });
    let mut l = Local::default();
    let bad = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY];
    for i in product(&[5, 6, 6]) {
        l.case("van Rhijn refused", &format!("{i:?}"), || {
            let z = [0.3, 1.2, bad[0], bad[1], bad[2]][i[0]];
            let h = [90.0, 0.0, -5.0, bad[0], bad[1], bad[2]][i[1]];
            let r = [6371.0, 0.0, -5.0, bad[0], bad[1], bad[2]][i[2]];
            let v = van_rhijn_factor_with_radius(rad(z), Kilometers::new(h), Kilometers::new(r)).value();
            let ok = i[0] < 2 && i[1] == 0 && i[2] == 0;
            ensure!(if ok { v >= 1.0 && v.is_finite() } else { v.is_nan() }, "{v} for zenith {z} height {h} radius {r}");
            Ok(1)
        });
    }
    for (n, want) in [(PlaneParallel::NAME, "PlaneParallel"), (Young1994::NAME, "Young1994"), (Rozenberg1966::NAME, "Rozenberg1966"), (KrisciunasSchaefer1991::NAME, "KrisciunasSchaefer1991")] {
        l.case("air mass names", want, || {
            ensure!(n == want, "called {n}");
            Ok(1)
        });
    }
    ctx.merge(l);
}

fn depths(ctx: &Ctx) {
    let ws: Vec<f64> = (0..if ctx.tier == Tier::Thorough { 1800 } else { 180 }).map(|i| 250.0 + i as f64 * 900.0 / if ctx.tier == Tier::Thorough { 1800.0 } else { 180.0 }).collect();
    let sites = [("Paranal", AtmosphereProfile::EL_PARANAL, 744.0, 2.635, 0.05), ("La Palma", AtmosphereProfile::ROQUE_DE_LOS_MUCHACHOS, 770.0, 2.396, 0.02), ("Mauna Kea", AtmosphereProfile::MAUNA_KEA, 615.0, 4.205, 0.03), ("La Silla", AtmosphereProfile::LA_SILLA, 770.0, 2.4, 0.04)];
    ctx.par(&ws, |l, &w| {
        let ray = |p: f64, h: f64, s: f64| rayleigh_optical_depth_bodhaine99(nm(w), Hectopascals::new(p), Kilometers::new(h), Kilometers::new(s)).value();
        l.case("Rayleigh depth", &format!("{w}"), || {
            let sea = ray(1013.25, 0.0, 8.0);
            // an independent fit: Hansen and Travis (1974)
            let u = w / 1000.0;
            let want = 0.008569 * u.powi(-4) * (1.0 + 0.0113 * u.powi(-2) + 0.00013 * u.powi(-4));
            ensure!((sea / want - 1.0).abs() < if w < 300.0 { 0.025 } else { 0.012 }, "depth {sea}, Hansen and Travis {want}");
            for p in [0.0, 500.0, 744.0, 1013.25, 2026.5] {
                for h in [0.0, 1.0, 2.635, 4.205, 8.0] {
                    for s in [6.0, 8.0, 8.4] {
                        let v = ray(p, h, s);
                        ensure!((v - sea * p / 1013.25 * f64::exp(-h / s)).abs() < 1e-12, "{v} at {p} hPa, {h} km, scale height {s} km");
                    }
                }
            }
            // falling with wavelength
            let next = rayleigh_optical_depth_bodhaine99(nm(w + 5.0), Hectopascals::new(1013.25), Kilometers::new(0.0), Kilometers::new(8.0)).value();
            ensure!(next < sea && next > 0.0, "depth rises from {sea} to {next}");
            ensure!(DEFAULT_SCALE_HEIGHT.value() == 8.0, "default scale height");
            Ok(hf(&[sea]) | 1)
        });
        for t0 in [0.0, 0.02, 0.05, 1.0] {
            for al in [-4.0, -1.38, 0.0, 1.0] {
                for w0 in [400.0, 550.0] {
                    l.case("aerosol depth", &format!("{w},{t0},{al},{w0}"), || {
                        let p = MieParams { tau0: OpticalDepths::new(t0), alpha: al, lambda_ref: nm(w0) };
                        let v = mie_optical_depth(&p, nm(w)).value();
                        let want = t0 * (al * (w / w0).ln()).exp();
                        ensure!((v - want).abs() <= 1e-11 * want, "depth {v}, power law {want}");
                        ensure!((mie_optical_depth(&p, nm(w0)).value() - t0).abs() < 1e-15, "depth at the reference wavelength");
                        Ok(hf(&[v]) | 1)
                    });
                }
            }
        }
        for (name, a, p, h, t0) in &sites {
            for x in [0.0, 1.0, 1.5, 2.0, 10.0, 38.0] {
                l.case("transmission", &format!("{name},{w},{x}"), || {
                    let tau = a.optical_depth(nm(w)).value();
                    let want = ray(*p, *h, 8.0) + t0 * (-1.38 * (w / 550.0).ln()).exp();
                    ensure!((tau - want).abs() < 1e-12, "depth {tau}, the site's molecules and aerosols make {want}");
                    let t = |x: f64| a.transmission(nm(w), Airmasses::new(x)).value();
                    ensure!((t(x) - (-want * x).exp()).abs() < 1e-12, "transmission {} through {x} air masses of depth {want}", t(x));
                    ensure!((t(x) * t(0.7) - t(x + 0.7)).abs() < 1e-12 && t(x) <= 1.0 && t(x) >= 0.0 && t(0.0) == 1.0, "not multiplicative in the air mass");
                    ensure!((transmission(OpticalDepths::new(tau), Airmasses::new(x)).value() - t(x)).abs() < 1e-15, "the free function differs");
                    Ok(hf(&[t(x)]) | 1)
                });
            }
        }
    });
    let mut l = Local::default();
    for (n, p, t0, pr) in [("Paranal", MieParams::PARANAL, 0.05, MieParams::paranal_provenance()), ("La Palma", MieParams::LA_PALMA, 0.02, MieParams::la_palma_provenance()), ("Mauna Kea", MieParams::MAUNA_KEA, 0.03, MieParams::mauna_kea_provenance()), ("La Silla", MieParams::LA_SILLA, 0.04, MieParams::la_silla_provenance())] {
        l.case("site aerosols", n, || {
            ensure!(p.tau0.value() == t0 && p.alpha == -1.38 && p.lambda_ref.value() == 550.0, "{p:?}");
            // the note quotes the depth and names the site
            let note = pr.notes.clone().unwrap_or_default();
            ensure!(note.contains(n) && note.contains(&format!("{t0}")) && note.contains("1.38") && pr.source.is_some(), "provenance {note}");
            Ok(1)
        });
    }
    ctx.merge(l);
}

fn phases(ctx: &Ctx) {
    let mut l = Local::default();
    l.case("Rayleigh phase function", "integral", || {
        let n = 20_000;
        let mut s = 0.0;
        for i in 0..n {
            let m = -1.0 + 2.0 * (i as f64 + 0.5) / n as f64;
            s += rayleigh_phase(rad(f64::acos(m))).value() * 2.0 / n as f64;
        }
        ensure!((s * std::f64::consts::TAU - 1.0).abs() < 1e-8, "integrates to {}", s * std::f64::consts::TAU);
        Ok(1)
    });
    for i in 0..=3600 {
        let t = i as f64 * 0.1 * DEG;
        l.case("Rayleigh phase function", &format!("{i}"), || {
            let v = rayleigh_phase(rad(t)).value();
            ensure!((v - 3.0 / 32.0 / std::f64::consts::PI * (3.0 + (2.0 * t).cos())).abs() < 1e-14, "{v}");
            for w in [300.0, 550.0, 900.0] {
                ensure!(RayleighPhaseFunction.phase(nm(w), rad(t)).value() == v, "the trait differs");
            }
            Ok(hf(&[v]) | 1)
        });
    }
    ctx.merge(l);
    // every table of three wavelengths by three angles with values 0, 1, 4 (and both directions of each axis)
    let tabs = product(&[3; 9]);
    ctx.par(&tabs, |l, v| {
        let vals: Vec<f64> = v.iter().map(|&i| [0.0, 1.0, 4.0][i]).collect();
        for dir in 0..4 {
            l.case("tabulated phase function", &format!("{v:?},{dir}"), || {
                let (mut xs, mut ys) = (vec![300.0, 400.0, 700.0], vec![0.0, 45.0, 180.0]);
                let f = |ix: usize, iy: usize| vals[iy * 3 + ix];
                if dir & 1 == 1 {
                    xs.reverse();
                }
                if dir & 2 == 2 {
                    ys.reverse();
                }
                let t = TabulatedPhaseFunction::from_raw_row_major(&xs, &ys, &vals).map_err(|e| format!("{e:?}"))?;
                let mut h = vec![];
                for x in [200.0, 300.0, 350.0, 400.0, 475.0, 700.0, 900.0] {
                    for y in [-10.0, 0.0, 22.5, 45.0, 90.0, 180.0, 200.0] {
                        let bracket = |ax: &[f64], q: f64| -> (usize, f64) {
                            let q = q.clamp(ax.iter().cloned().fold(f64::MAX, f64::min), ax.iter().cloned().fold(f64::MIN, f64::max));
                            for k in 0..2 {
                                let s = (q - ax[k]) / (ax[k + 1] - ax[k]);
                                if (0.0..=1.0).contains(&s) {
                                    return (k, s);
                                }
                            }
                            unreachable!()
                        };
                        let ((i, a), (j, b)) = (bracket(&xs, x), bracket(&ys, y));
                        let want = f(i, j) * (1.0 - a) * (1.0 - b) + f(i + 1, j) * a * (1.0 - b) + f(i, j + 1) * (1.0 - a) * b + f(i + 1, j + 1) * a * b;
                        let got = t.interp_at(nm(x), rad(y * DEG)).value();
                        ensure!((got - want).abs() < 1e-12, "{got} at {x} nm, {y} degrees; bilinear {want}");
                        ensure!(PhaseFunction::phase(&t, nm(x), rad(y * DEG)).value() == got, "the trait differs");
                        h.push(got);
                    }
                }
                let p = t.clone().with_provenance(MieParams::paranal_provenance());
                ensure!(p.interp_at(nm(350.0), rad(1.0)).value() == t.interp_at(nm(350.0), rad(1.0)).value(), "a note on the origin changes the values");
                Ok(hf(&h) | 1)
            });
        }
    });
    let mut l = Local::default();
    // every axis of up to three points from {0, 10, 20, NaN}: accepted only when strictly monotonic with at least two points
    let mut axes: Vec<Vec<f64>> = vec![vec![]];
    for n in 1..=3 {
        axes.extend(product(&vec![4; n]).into_iter().map(|i| i.into_iter().map(|k| [0.0, 10.0, 20.0, f64::NAN][k]).collect()));
    }
    let good = |a: &[f64]| a.len() >= 2 && (a.windows(2).all(|w| w[0] < w[1]) || a.windows(2).all(|w| w[0] > w[1]));
    for (i, a) in axes.iter().enumerate() {
        for (j, b) in axes.iter().enumerate() {
            for d in 0..3 {
                l.case("table refused", &format!("{i},{j},{d}"), || {
                    let n = (a.len() * b.len() + d).saturating_sub(1);
                    let t = TabulatedPhaseFunction::from_raw_row_major(a, b, &vec![1.0; n]);
                    let ok = good(a) && good(b) && n == a.len() * b.len();
                    ensure!(t.is_ok() == ok, "{a:?} x {b:?} with {n} values: {}", if ok { "refused" } else { "accepted" });
                    Ok(1)
                });
            }
        }
    }
    ctx.merge(l);
}

fn table(path: &str, scale: f64) -> (Vec<f64>, Vec<f64>) {
    let s = std::fs::read_to_string(path).unwrap_or_default();
    s.lines().filter(|l| !l.starts_with('#')).filter_map(|l| {
        let mut w = l.split_whitespace();
        Some((w.next()?.parse::<f64>().ok()? * scale, w.next()?.parse::<f64>().ok()?))
    }).unzip()
}

fn curve(l: &mut Local, name: &str, file: &str, scale: f64, outside_zero: bool, get: impl Fn(f64) -> f64, raw: (&[f64], &[f64])) {
    let (xs, ys) = table(file, scale);
    l.case(name, "whole table", || {
        ensure!(xs.len() > 10 && raw.0.len() == xs.len() && raw.1.len() == ys.len(), "{} points, the file has {}", raw.0.len(), xs.len());
        ensure!(raw.0.windows(2).all(|w| w[0] < w[1]), "wavelengths not increasing");
        Ok(1)
    });
    for i in 0..xs.len() {
        l.case(name, &format!("point {i}"), || {
            ensure!((get(xs[i]) - ys[i]).abs() < 1e-9 && (0.0..=1.0).contains(&get(xs[i])), "{} at {} nm, the file says {}", get(xs[i]), xs[i], ys[i]);
            if i + 1 < xs.len() {
                for f in [0.25, 0.5, 0.9] {
                    let (x, want) = (xs[i] + f * (xs[i + 1] - xs[i]), ys[i] + f * (ys[i + 1] - ys[i]));
                    ensure!((get(x) - want).abs() < 1e-9, "{} at {x} nm, between {} and {}", get(x), ys[i], ys[i + 1]);
                }
            }
            Ok(i as u64 + 1)
        });
    }
    for d in [1e-6, 1.0, 100.0, 1e6] {
        l.case(name, &format!("outside by {d}"), || {
            let (lo, hi) = (get(xs[0] - d), get(xs[xs.len() - 1] + d));
            ensure!((lo, hi) == if outside_zero { (0.0, 0.0) } else { (ys[0], ys[ys.len() - 1]) }, "outside the table: {lo}, {hi}");
            Ok(1)
        });
    }
}

fn spectra(l: &mut Local) {
    let dir = "/repo/src/photometry/passbands/bessell1990";
    let o = siderust::atmosphere::transmission_table();
    curve(l, "ozone", "/repo/src/atmosphere/o3trans.dat", 1000.0, false, |x| o.interp_at(nm(x)).value(), (o.xs_raw(), o.ys_raw()));
    let mut mids = vec![];
    macro_rules! band {
        ($($f:ident $n:literal),+) => { $( {
            let s = passbands::bessell1990::$f();
            curve(l, concat!("passband ", $n), &format!("{dir}/{}.dat", $n), 1.0, true, |x| s.interp_at(nm(x)).value(), (s.xs_raw(), s.ys_raw()));
            let (mut a, mut b) = (0.0, 0.0);
            for (x, y) in s.xs_raw().iter().zip(s.ys_raw()) {
                a += x * y;
                b += y;
            }
            mids.push(a / b);
            l.case("passbands", $n, || {
                ensure!(std::ptr::eq(s, passbands::bessell1990::$f()), "loaded twice");
                ensure!((s.ys_raw().iter().cloned().fold(0.0, f64::max) - 1.0).abs() < 1e-9, "peak");
                ensure!(s.provenance().is_some_and(|p| format!("{p:?}").contains(concat!("Bessell.", $n)) && format!("{p:?}").contains(concat!("bessell1990/", $n, ".dat"))), "origin {:?}", s.provenance());
                Ok(1)
            });
        } )+ };
    }
    band!(u "U", b "B", v "V", r "R", i "I");
    l.case("passbands", "order", || {
        for (m, want) in mids.iter().zip([365.0, 440.0, 550.0, 660.0, 805.0]) {
            ensure!((m - want).abs() < 15.0, "centred at {m} nm, expected {want}");
        }
        ensure!(std::ptr::eq(passbands::johnson_b(), passbands::bessell1990::b()) && std::ptr::eq(passbands::johnson_v(), passbands::bessell1990::v()), "the Johnson aliases");
        Ok(1)
    });
    // ozone: the Chappuis band near 600 nm and the Huggins cut-off
    l.case("ozone", "bands", || {
        let f = |x: f64| siderust::atmosphere::ozone::transmittance_at(nm(x)).value();
        ensure!(f(300.0) < 0.1 && f(400.0) > 0.99 && f(600.0) < 0.98 && f(600.0) > 0.9 && f(900.0) > 0.99, "{} {} {} {} {}", f(300.0), f(400.0), f(600.0), f(900.0), f(1e4));
        Ok(1)
    });
}

fn moonlight(l: &mut Local) {
    for w in [0.0, 299.9, 300.0, 301.0, 500.0, 699.0, 700.0, 1099.0, 1100.0, 1100.1, 1e6] {
        for i in -180..=180 {
            let a = i as f64 * DEG;
            l.case("moonlight", &format!("{w},{i}"), || {
                let x: f64 = f64::min(f64::max(w, 300.0), 1100.0);
                let full = lp::lunar_full_moon_albedo_jones2013(nm(w)).value();
                ensure!((full - (0.075 * (1100.0 - x) + 0.14 * (x - 300.0)) / 800.0).abs() < 1e-14, "albedo {full} at {w} nm");
                let p = lp::lunar_phase_attenuation_jones2013(rad(a)).value();
                let d = (i as f64).abs();
                // Krisciunas and Schaefer (1991): magnitude law 0.026|a| + 4e-9 a^4
                let mag = -2.5 * p.log10();
                ensure!((mag - (0.026 * d + 4e-9 * d.powi(4))).abs() < 1e-9 && p <= 1.0 && p > 0.0, "{mag} magnitudes fainter at phase {d} degrees");
                ensure!((lp::lunar_albedo_jones2013(rad(a), nm(w)).value() - full * p).abs() < 1e-15, "albedo at phase");
                let f = |e: f64, r: f64| lp::reflected_lunar_spectral_radiance_jones2013(e, nm(w), rad(a), Kilometers::new(r)).value();
                let mean = f(1.8, 384_400.0);
                ensure!((mean / (1.8 * full * p * (1737.4f64 / 384_400.0).powi(2)) - 1.0).abs() < 1e-12, "moonlight {mean} at the mean distance");
                for r in [356_500.0, 384_400.0, 406_700.0, 1e6] {
                    ensure!((f(1.8, r) / mean * (r / 384_400.0).powi(2) - 1.0).abs() < 1e-12, "not the inverse square of the distance at {r} km");
                    ensure!((f(3.6, r) / f(1.8, r) - 2.0).abs() < 1e-12 && f(0.0, r) == 0.0, "not proportional to the sunlight");
                }
                for r in [0.0, -1.0, f64::NAN, f64::INFINITY] {
                    ensure!(f(1.8, r).is_nan(), "a Moon at {r} km gives {}", f(1.8, r));
                }
                Ok(hf(&[mean]) | 1)
            });
        }
    }
    for b in [f64::NAN, f64::INFINITY, f64::NEG_INFINITY] {
        for k in 0..4 {
            l.case("moonlight", &format!("{b} in place {k}"), || {
                let v = lp::reflected_lunar_spectral_radiance_jones2013(if k == 0 { b } else { 1.8 }, nm(if k == 1 { b } else { 550.0 }), rad(if k == 2 { b } else { 0.2 }), Kilometers::new(if k == 3 { b } else { 384_400.0 })).value();
                ensure!(v.is_nan(), "{v}");
                Ok(1)
            });
        }
    }
}

pub fn run(tier: Tier) -> Ctx {
    let mut ctx = Ctx::new("C34", "exploration", tier,
        "every zenith distance from 0 to 90 degrees in fine steps for four air-mass formulas and the airglow layer, against a ray through a round exponential atmosphere and the thin-shell chord; every wavelength of a grid x pressures, altitudes, aerosol laws, sites and air masses; all 19683 tables of three wavelengths by three angles in both axis directions and all axes of up to three points; every point and interval of the ozone table and the five passbands, read independently from the data files; all whole-degree lunar phases x wavelengths x distances. Non-trivial: every case.");
    ctx.assumptions = vec!["the data files themselves are taken as the reference for the ozone table and passbands".into(), "the Rayleigh depth applies both the station pressure and an altitude factor, as documented".into()];
    airmasses(&ctx);
    depths(&ctx);
    phases(&ctx);
    let mut l = Local::default();
    spectra(&mut l);
    moonlight(&mut l);
    ctx.merge(l);
    ctx
}
