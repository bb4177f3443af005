//! C21: estimators over every bounded history of rows, measurements, refusals and predictions.
use crate::core::*;
use siderust::astro::dynamics::{OrbitState, StateCovariance, Velocity};
use siderust::coordinates::frames::GCRS;
use siderust::pod::estimation::{gauss_newton, NonlinearError, NonlinearOptions, NormalEquations, OrbitEkf, Parameter, ParameterKind};
use siderust::pod::problem::covariance::ParameterCovariance;
use siderust::pod::problem::parameter::ParameterOrdering;
use siderust::pod::process::{GaussMarkovParams, PiecewiseSegment, ProcessNoise, ProcessNoiseModel, WhiteAccelPsd};
use siderust::qtty::unit::Second;
use siderust::qtty::Quantity;
use siderust::time::JulianDate;

type M = Vec<Vec<f64>>;
fn mm(a: &M, b: &M) -> M {
    a.iter().map(|r| (0..b[0].len()).map(|j| r.iter().zip(b).map(|(x, br)| x * br[j]).sum()).collect()).collect()
}
fn tr(a: &M) -> M {
    (0..a[0].len()).map(|j| a.iter().map(|r| r[j]).collect()).collect()
}
fn madd(a: &M, b: &M, s: f64) -> M {
    a.iter().zip(b).map(|(x, y)| x.iter().zip(y).map(|(p, q)| p + s * q).collect()).collect()
}
fn eye(n: usize) -> M {
    (0..n).map(|i| (0..n).map(|j| f64::from(i == j)).collect()).collect()
}
fn maxabs(a: &M) -> f64 {
    a.iter().flatten().fold(0.0f64, |m, x| m.max(x.abs()))
}
/// Inverse by Gauss-Jordan with full row pivoting.
fn inv(a: &M) -> Option<M> {
    let n = a.len();
    let mut w: M = a.iter().enumerate().map(|(i, r)| r.iter().cloned().chain((0..n).map(|j| f64::from(i == j))).collect()).collect();
    for c in 0..n {
        let p = (c..n).max_by(|x, y| w[*x][c].abs().total_cmp(&w[*y][c].abs()))?;
        if w[p][c].abs() < 1e-13 * maxabs(a).max(1e-300) {
            return None;
        }
        w.swap(c, p);
        let d = w[c][c];
        w[c].iter_mut().for_each(|x| *x /= d);
        for r in 0..n {
            if r != c {
                let f = w[r][c];
                for k in 0..2 * n {
                    let t = w[c][k];
                    w[r][k] -= f * t;
                }
            }
        }
    }
    Some(w.into_iter().map(|r| r[n..].to_vec()).collect())
}
/// Smallest pivot of a Cholesky factorisation of a + tol*I scaled by the diagonal (negative: not PSD).
fn psd(a: &M, tol: f64) -> bool {
    let n = a.len();
    let mut l = vec![vec![0.0; n]; n];
    for i in 0..n {
        for j in 0..=i {
            let mut s = a[i][j] + if i == j { tol } else { 0.0 };
            for k in 0..j {
                s -= l[i][k] * l[j][k];
            }
            if i == j {
                if s < 0.0 {
                    return false;
                }
                l[i][i] = s.sqrt();
            } else {
                l[i][j] = if l[j][j] > 0.0 { s / l[j][j] } else { 0.0 };
            }
        }
    }
    true
}
fn arr(a: [[f64; 6]; 6]) -> M {
    a.iter().map(|r| r.to_vec()).collect()
}
fn to6(a: &M) -> [[f64; 6]; 6] {
    std::array::from_fn(|i| std::array::from_fn(|j| a[i][j]))
}
fn secs(x: f64) -> Quantity<Second> {
    Quantity::new(x)
}
#[derive(Clone)]
struct Row(&'static str, Vec<(usize, f64)>, f64, f64, bool);
struct Fit {
    n: M,
    b: Vec<f64>,
    chi2: f64,
    obs: usize,
}
fn accumulate(n: usize, rows: &[&Row]) -> Fit {
    let mut f = Fit { n: vec![vec![0.0; n]; n], b: vec![0.0; n], chi2: 0.0, obs: 0 };
    for r in rows.iter().filter(|r| r.4) {
        let mut h = vec![0.0; n];
        for (i, x) in &r.1 {
            h[*i] += x;
        }
        let w = 1.0 / (r.3 * r.3);
        for i in 0..n {
            f.b[i] += w * h[i] * r.2;
            for j in 0..n {
                f.n[i][j] += w * h[i] * h[j];
            }
        }
        f.chi2 += w * r.2 * r.2;
        f.obs += 1;
    }
    f
}
fn judge_fit(ne: NormalEquations, want: &Fit, n: usize, tol: f64) -> Outcome {
    ensure!(ne.n_params() == n, "{} parameters", ne.n_params());
    let zero_diag = (0..n).any(|i| want.n[i][i] == 0.0);
    let Some(cov) = inv(&want.n) else {
        if zero_diag {
            ensure!(guard(|| ne.solve())?.is_err(), "an unobserved parameter was solved for");
            return Ok(1);
        }
        return Ok(0);
    };
    let c = maxabs(&want.n) * maxabs(&cov);
    if c > 1e9 {
        return Ok(0);
    }
    let r = match guard(|| ne.solve())? {
        Ok(r) => r,
        Err(e) => return Err(format!("solvable system refused: {e}")),
    };
    let tol = tol * c;
    let x: Vec<f64> = (0..n).map(|i| (0..n).map(|j| cov[i][j] * want.b[j]).sum()).collect();
    let sc = x.iter().fold(0.0f64, |m, v| m.max(v.abs())) + want.b.iter().fold(0.0f64, |m, v| m.max(v.abs())) * maxabs(&cov);
    for i in 0..n {
        ensure!((r.update[i] - x[i]).abs() <= tol * (sc + 1e-12), "update {:?} instead of {x:?}", r.update);
        for j in 0..n {
            ensure!((r.covariance[i][j] - cov[i][j]).abs() <= tol * maxabs(&cov), "covariance {:?} instead of {cov:?}", r.covariance);
        }
    }
    ensure!(r.n_obs == want.obs && r.n_params == n, "{} observations, {} parameters (want {}, {n})", r.n_obs, r.n_params, want.obs);
    ensure!((r.chi2 - want.chi2).abs() <= 1e-12 * (want.chi2 + 1e-300), "chi2 {} instead of {}", r.chi2, want.chi2);
    let dof = if want.obs > n { (want.obs - n) as f64 } else { 1.0 };
    ensure!((r.reduced_chi2() - want.chi2 / dof).abs() <= 1e-12 * (want.chi2 + 1e-300), "reduced chi2 {} instead of {}", r.reduced_chi2(), want.chi2 / dof);
    match (n, r.to_state_covariance()) {
        (6, Some(s)) => {
            let s = arr(s.to_row_major());
            for i in 0..6 {
                for j in 0..6 {
                    ensure!((s[i][j] - cov[i][j]).abs() <= tol * maxabs(&cov), "state covariance [{i}][{j}] {} instead of {}", s[i][j], cov[i][j]);
                }
            }
        }
        (6, None) => return Err("no state covariance for six parameters".into()),
        (_, Some(_)) => return Err(format!("state covariance for {n} parameters")),
        _ => {}
    }
    Ok(hf(&r.update))
}
fn same_ne(a: &NormalEquations, b: &NormalEquations) -> bool {
    a.n_obs == b.n_obs && a.chi2.to_bits() == b.chi2.to_bits() && (0..a.n_params()).all(|i| a.b[(i, 0)].to_bits() == b.b[(i, 0)].to_bits() && (0..a.n_params()).all(|j| a.n_matrix[(i, j)].to_bits() == b.n_matrix[(i, j)].to_bits()))
}
fn drive(n: usize, rows: &[&Row], tol: f64) -> Outcome {
    let mut ne = NormalEquations::new(n);
    for r in rows {
        let before = ne.clone();
        let res = guard(|| ne.add_row(&r.1, r.2, r.3))?;
        ensure!(res.is_ok() == r.4, "row {} {}", r.0, if r.4 { "refused" } else { "accepted" });
        ensure!(r.4 || same_ne(&before, &ne), "the refused row {} changed the normal equations", r.0);
    }
    judge_fit(ne, &accumulate(n, rows), n, tol)
}
fn st(x: &[f64], jd: f64) -> OrbitState {
    OrbitState::new(JulianDate::new(jd).to_j2000s(), siderust::astro::dynamics::state::Position::<GCRS>::new(x[0], x[1], x[2]), Velocity::<GCRS>::new(x[3], x[4], x[5]))
}
fn xs(s: &OrbitState) -> Vec<f64> {
    vec![s.position.x().value(), s.position.y().value(), s.position.z().value(), s.velocity.x().value(), s.velocity.y().value(), s.velocity.z().value()]
}
pub fn run(tier: Tier) -> Ctx {
    let mut ctx = Ctx::new("C21", "model_checking", tier,
        "every sequence up to the bound over an alphabet of valid rows (sparse, repeated, unordered and dense partials) and rows to refuse; every order of eight six-parameter rows; every filter history over valid/refused measurements and predictions with and without noise, against an independent information-form batch solution; iterated fitting from a grid of starts under every row order; noise composition over grids of spans. Non-trivial: a solution, refusal or covariance was compared.");
    ctx.assumptions = vec!["numerically singular systems (condition above 1e9) are driven but their solution is not judged".into()];
    // ---- normal equations: all sequences over rows -------------------------------------------
    let rows2: Vec<Row> = vec![
        Row("x", vec![(0, 1.0)], 2.0, 1.0, true),
        Row("y", vec![(1, 2.0)], -3.0, 0.5, true),
        Row("xy", vec![(0, 1.0), (1, -1.0)], 0.5, 2.0, true),
        Row("yx", vec![(1, 3.0), (0, 0.25)], 1.0, 1.0, true),
        Row("dup", vec![(0, 1.0), (0, 0.5), (1, 1.0)], 4.0, 1.0, true),
        Row("none", vec![], 1.5, 0.5, true),
        Row("sigma0", vec![(0, 1.0)], 1.0, 0.0, false),
        Row("sigma-", vec![(0, 1.0)], 1.0, -1.0, false),
        Row("sigmanan", vec![(0, 1.0)], 1.0, f64::NAN, false),
        Row("resnan", vec![(0, 1.0)], f64::NAN, 1.0, false),
        Row("oob", vec![(0, 1.0), (2, 1.0)], 1.0, 1.0, false),
        Row("nanpart", vec![(1, 1.0), (0, f64::NAN)], 1.0, 1.0, false),
        Row("infpart", vec![(0, 2.0), (1, f64::INFINITY)], 1.0, 1.0, false),
    ];
    let seqs = sequences(rows2.len(), ctx.pick(5, 6));
    let chunks: Vec<&[Vec<usize>]> = seqs.chunks(2000).collect();
    ctx.par(&chunks, |l, ch| {
        for s in ch.iter() {
            let rows: Vec<&Row> = s.iter().map(|i| &rows2[*i]).collect();
            l.case("wls", &rows.iter().map(|r| r.0).collect::<Vec<_>>().join(","), || drive(2, &rows, 1e-13));
        }
    });
    // six and seven parameters, every order of the rows
    for n in [3usize, 6, 7] {
        let k = if n == 3 { 6 } else { ctx.pick(8, 9) };
        let mut rows: Vec<Row> = (0..k).map(|r| {
            let p: Vec<(usize, f64)> = (0..n).map(|c| ((c * 5 + r) % n, ((r * 7 + c * 3) % 11) as f64 / 4.0 - 1.0 + f64::from(c == r))).collect();
            Row("r", p, (r as f64 - 2.5) * 0.75, [1.0, 0.5, 2.0][r % 3], true)
        }).collect();
        rows.insert(k / 2, Row("bad", vec![(0, 1.0), (n, 1.0)], 1.0, 1.0, false));
        let fact: Vec<Vec<usize>> = permutations(k).into_iter().map(|p| { let mut p: Vec<usize> = p.into_iter().map(|i| if i >= k / 2 { i + 1 } else { i }).collect(); p.insert(2, k / 2); p }).collect();
        let chunks: Vec<&[Vec<usize>]> = fact.chunks(500).collect();
        ctx.par(&chunks, |l, ch| {
            for p in ch.iter() {
                let rr: Vec<&Row> = p.iter().map(|i| &rows[*i]).collect();
                l.case("wls-order", &format!("n={n} {p:?}"), || drive(n, &rr, 1e-13));
            }
        });
    }
    // ---- sequential filter ---------------------------------------------------------------------
    let x0 = vec![7000.0, -1200.0, 300.0, 1.0, 7.5, -0.25];
    let truth = vec![7000.4, -1200.3, 300.2, 1.002, 7.499, -0.2495];
    let p0d = [1.0f64, 0.25, 4.0, 1e-4, 1e-4, 4e-4];
    let dt = 64.0;
    let phi: M = (0..6).map(|i| (0..6).map(|j| if i == j { 1.0 } else if j == i + 3 { dt } else { 0.0 }).collect()).collect();
    let mut q: M = vec![vec![0.0; 6]; 6];
    for i in 0..3 {
        q[i][i] = 0.01;
        q[i][i + 3] = 1e-5;
        q[i + 3][i] = 1e-5;
        q[i + 3][i + 3] = 1e-6;
    }
    // (name, h, r, innovation override, valid)
    let meas: Vec<(&str, [f64; 6], f64, Option<f64>, bool)> = vec![
        ("px", [1.0, 0.0, 0.0, 0.0, 0.0, 0.0], 0.01, None, true),
        ("range", [0.6, -0.64, 0.48, 0.0, 0.0, 0.0], 1e-4, None, true),
        ("rate", [0.0, 0.001, 0.0, 0.6, -0.64, 0.48], 1e-6, None, true),
        ("pz-vx", [0.0, 0.0, 1.0, -30.0, 0.0, 0.0], 0.25, None, true),
        ("exact", [0.0, 1.0, 0.0, 0.0, 0.0, 0.0], 0.0, None, true),
        ("r-neg", [1.0, 0.0, 0.0, 0.0, 0.0, 0.0], -1.0, None, false),
        ("r-nan", [1.0, 0.0, 0.0, 0.0, 0.0, 0.0], f64::NAN, None, false),
        ("innov-nan", [1.0, 0.0, 0.0, 0.0, 0.0, 0.0], 1.0, Some(f64::NAN), false),
        ("h-inf", [1.0, 0.0, 0.0, 0.0, f64::INFINITY, 0.0], 1.0, None, false),
        ("null", [0.0; 6], 0.0, Some(0.3), false),
    ];
    let nm = meas.len();
    // alphabet: measurements, then "predict", then "predict with noise"
    let seqs = sequences(nm + 2, ctx.pick(5, 6));
    let chunks: Vec<&[Vec<usize>]> = seqs.chunks(1500).collect();
    ctx.par(&chunks, |l, ch| {
        for s in ch.iter() {
            let key = s.iter().map(|i| if *i < nm { meas[*i].0 } else if *i == nm { "predict" } else { "predict+q" }).collect::<Vec<_>>().join(",");
            l.case("ekf", &key, || {
                let mut f = OrbitEkf::from_stddevs(st(&x0, 2451545.0), [p0d[0].sqrt(), p0d[1].sqrt(), p0d[2].sqrt()], [p0d[3].sqrt(), p0d[4].sqrt(), p0d[5].sqrt()]);
                // information about the initial state
                let mut info: M = (0..6).map(|i| (0..6).map(|j| if i == j { 1.0 / p0d[i] } else { 0.0 }).collect()).collect();
                let mut ib = vec![0.0; 6];
                let mut tot = eye(6);
                let mut tru = truth.clone();
                let mut jd = 2451545.0;
                let mut batchable = true;
                for &a in s {
                    let pold = arr(f.covariance().to_row_major());
                    let xold = xs(f.state());
                    let size = maxabs(&pold);
                    if a >= nm {
                        let xn: Vec<f64> = (0..6).map(|i| (0..6).map(|j| phi[i][j] * xold[j]).sum()).collect();
                        tru = (0..6).map(|i| (0..6).map(|j| phi[i][j] * tru[j]).sum()).collect();
                        jd += dt / 86400.0;
                        let noise = a == nm + 1;
                        f.predict(st(&xn, jd), to6(&phi), noise.then(|| StateCovariance::<GCRS>::from_row_major(to6(&q))));
                        let mut want = mm(&mm(&phi, &pold), &tr(&phi));
                        if noise {
                            want = madd(&want, &q, 1.0);
                            batchable = false;
                        }
                        let got = arr(f.covariance().to_row_major());
                        ensure!(maxabs(&madd(&got, &want, -1.0)) <= 1e-11 * maxabs(&want), "predicted covariance {got:?} instead of {want:?}");
                        ensure!(maxabs(&madd(&got, &tr(&got), -1.0)) <= 1e-12 * maxabs(&got), "predicted covariance not symmetric");
                        ensure!(xs(f.state()) == xn, "predicted state {:?}", xs(f.state()));
                        tot = mm(&phi, &tot);
                        continue;
                    }
                    let (name, h, r, ov, valid) = &meas[a];
                    let z: f64 = (0..6).map(|i| if h[i] == 0.0 { 0.0 } else { h[i] * (tru[i] - xold[i]) }).sum();
                    let innov = ov.unwrap_or(if z.is_finite() { z } else { 1.0 });
                    let ph: Vec<f64> = (0..6).map(|i| (0..6).map(|j| pold[i][j] * h[j]).sum()).collect();
                    let sv: f64 = r + (0..6).map(|i| h[i] * ph[i]).sum::<f64>();
                    let res = guard(|| f.update_scalar(*h, innov, *r))?;
                    let pnew = arr(f.covariance().to_row_major());
                    let xn = xs(f.state());
                    if *valid && *name == "exact" && sv < 1e-9 {
                        // an exact measurement repeated: no information left; either answer is allowed
                        if res.is_err() {
                            ensure!(pnew == pold && xn == xold, "refused measurement changed the filter");
                        }
                        return Ok(1);
                    }
                    ensure!(res.is_ok() == *valid, "measurement {name} {}", if *valid { "refused" } else { "accepted" });
                    if !*valid {
                        ensure!(pnew == pold && xn == xold, "the refused measurement {name} changed the filter");
                        continue;
                    }
                    let rec = res.unwrap();
                    ensure!(rec.innovation == innov && (rec.variance - sv).abs() <= 1e-10 * sv && (rec.nis - innov * innov / sv).abs() <= 1e-10 * (innov * innov / sv) + 1e-300, "record {rec:?} for innovation {innov}, variance {sv}");
                    // rounding allowance: differences of this size are noise
                    let noise = 1e-12 * size;
                    ensure!(maxabs(&madd(&pnew, &tr(&pnew), -1.0)) == 0.0 || maxabs(&madd(&pnew, &tr(&pnew), -1.0)) <= 1e-13 * size, "covariance not symmetric after {name}");
                    ensure!(psd(&pnew, noise), "covariance not positive semidefinite after {name}: {pnew:?}");
                    ensure!(psd(&madd(&pold, &pnew, -1.0), 10.0 * noise), "the update by {name} increased the covariance");
                    let k: Vec<f64> = ph.iter().map(|x| x / sv).collect();
                    for i in 0..6 {
                        ensure!((xn[i] - (xold[i] + k[i] * innov)).abs() <= 1e-11 * (xold[i].abs() + (k[i] * innov).abs()), "state {xn:?} after {name}");
                        for j in 0..6 {
                            ensure!((pnew[i][j] - (pold[i][j] - ph[i] * ph[j] / sv)).abs() <= 1e-11 * size, "covariance [{i}][{j}] {} after {name}", pnew[i][j]);
                        }
                    }
                    ensure!((f.state().epoch.raw().value() - JulianDate::new(jd).to_j2000s().raw().value()).abs() < 1e-4, "epoch moved");
                    if *r == 0.0 {
                        batchable = false;
                    } else {
                        let hi: Vec<f64> = (0..6).map(|j| (0..6).map(|i| h[i] * tot[i][j]).sum()).collect();
                        for i in 0..6 {
                            let zi: f64 = (0..6).map(|j| hi[j] * (truth[j] - x0[j])).sum();
                            ib[i] += hi[i] * zi / r;
                            for j in 0..6 {
                                info[i][j] += hi[i] * hi[j] / r;
                            }
                        }
                    }
                }
                if batchable {
                    // scale for conditioning
                    let d: Vec<f64> = p0d.iter().map(|x| x.sqrt()).collect();
                    let sc: M = (0..6).map(|i| (0..6).map(|j| info[i][j] * d[i] * d[j]).collect()).collect();
                    let c = inv(&sc).ok_or("oracle singular")?;
                    let cov: M = (0..6).map(|i| (0..6).map(|j| c[i][j] * d[i] * d[j]).collect()).collect();
                    let dx: Vec<f64> = (0..6).map(|i| (0..6).map(|j| cov[i][j] * ib[j]).sum()).collect();
                    let xi: Vec<f64> = (0..6).map(|i| x0[i] + dx[i]).collect();
                    let xb: Vec<f64> = (0..6).map(|i| (0..6).map(|j| tot[i][j] * xi[j]).sum()).collect();
                    let pb = mm(&mm(&tot, &cov), &tr(&tot));
                    let got = arr(f.covariance().to_row_major());
                    let x = xs(f.state());
                    for i in 0..6 {
                        let sd = (p0d[i % 3].sqrt()).max(0.01) * if i < 3 { 1.0 } else { 0.02 };
                        ensure!((x[i] - xb[i]).abs() <= 1e-6 * sd + 1e-11 * xb[i].abs(), "filter state {x:?}, batch {xb:?}");
                    }
                    ensure!(maxabs(&madd(&got, &pb, -1.0)) <= 1e-8 * maxabs(&pb), "filter covariance {got:?}, batch {pb:?}");
                }
                Ok(hf(&xs(f.state())))
            });
        }
    });
    // ---- iterated fitting ------------------------------------------------------------------------
    let ts = [0.0, 0.5, 1.0, 1.5, 2.0];
    let orders = permutations(ts.len());
    let mut jobs = vec![];
    for kind in 0..3 {
        for a0 in [0.5, 1.0, 2.0, 2.5] {
            for b0 in [-1.0, -0.6, -0.3, 0.2] {
                jobs.push((kind, a0, b0));
            }
        }
    }
    ctx.par(&jobs, |l, &(kind, a0, b0)| {
        let model = |p: &[f64], t: f64| match kind {
            0 => (p[0] + p[1] * t, [1.0, t]),
            1 => (p[0] * (p[1] * t).exp(), [(p[1] * t).exp(), p[0] * t * (p[1] * t).exp()]),
            _ => (p[0] * p[0] + p[1] * t * p[0], [2.0 * p[0] + p[1] * t, t * p[0]]),
        };
        // noisy data: the residual does not vanish at the solution
        let y: Vec<f64> = ts.iter().enumerate().map(|(i, t)| model(&[1.5, -0.5], *t).0 + [0.01, -0.02, 0.015, 0.005, -0.01][i]).collect();
        let mut base: Option<Vec<f64>> = None;
        for (oi, ord) in orders.iter().enumerate() {
            if oi % 3 != 0 && tier == Tier::Quick {
                continue;
            }
            l.case("gauss-newton", &format!("model={kind} start=({a0},{b0}) order={ord:?}"), || {
                let mut seen: Vec<Vec<f64>> = vec![];
                let r = guard(|| gauss_newton(vec![a0, b0], NonlinearOptions { max_iter: 40, tol_rel: 1e-10, tol_chi2_rel: 1e-6 }, |p| {
                    seen.push(p.to_vec());
                    let mut ne = NormalEquations::new(2);
                    for &i in ord {
                        let (f, h) = model(p, ts[i]);
                        ne.add_row(&[(0, h[0]), (1, h[1])], y[i] - f, 0.5)?;
                    }
                    Ok(ne)
                }))?;
                let r = match r {
                    Ok(r) => r,
                    Err(e) => { ensure!(kind != 0, "linear problem: {e}"); return Ok(0) }
                };
                ensure!(r.iterations == seen.len(), "{} iterations reported, {} made", r.iterations, seen.len());
                ensure!(seen[0] == [a0, b0], "first assembly at {:?}", seen[0]);
                // stationarity of the weighted sum at the reported parameters
                let (mut g, mut n) = ([0.0; 2], [[0.0; 2]; 2]);
                let mut c2 = 0.0;
                let lastp = seen.last().unwrap();
                for i in 0..ts.len() {
                    let (f, h) = model(&r.parameters, ts[i]);
                    for a in 0..2 {
                        g[a] += h[a] * (y[i] - f) * 4.0;
                        for b in 0..2 {
                            n[a][b] += h[a] * h[b] * 4.0;
                        }
                    }
                    c2 += (y[i] - model(lastp, ts[i]).0).powi(2) * 4.0;
                }
                let det = n[0][0] * n[1][1] - n[0][1] * n[0][1];
                let step = [(n[1][1] * g[0] - n[0][1] * g[1]) / det, (n[0][0] * g[1] - n[0][1] * g[0]) / det];
                ensure!(step[0].abs() < 1e-8 && step[1].abs() < 1e-8, "reported parameters {:?} are not a solution (next step {step:?})", r.parameters);
                ensure!((r.last.chi2 - c2).abs() <= 1e-9 * c2, "last fit statistic {} instead of {c2}", r.last.chi2);
                for i in 0..2 {
                    ensure!((r.parameters[i] - lastp[i] - r.last.update[i]).abs() < 1e-12, "parameters {:?} are not the last point plus the last update", r.parameters);
                }
                let b = base.get_or_insert_with(|| r.parameters.clone());
                ensure!((b[0] - r.parameters[0]).abs() < 1e-8 && (b[1] - r.parameters[1]).abs() < 1e-8, "row order changes the solution: {b:?} / {:?}", r.parameters);
                Ok(hf(&r.parameters))
            });
        }
    });
    // options and failures
    let mut l = Local::default();
    let asm = |p: &[f64]| -> Result<NormalEquations, NonlinearError> {
        let mut ne = NormalEquations::new(1);
        ne.add_row(&[(0, 1.0)], 3.0 - p[0], 1.0)?;
        ne.add_row(&[(0, 2.0)], 6.5 - 2.0 * p[0], 1.0)?;
        Ok(ne)
    };
    for (i, (mx, tr_, tc)) in [(0usize, 1e-9, 1e-6), (5, f64::NAN, 1e-6), (5, -1.0, 1e-6), (5, 1e-9, f64::NAN), (5, 1e-9, -1e-3), (5, f64::INFINITY, 1e-6)].into_iter().enumerate() {
        l.case("gauss-newton-options", &format!("{i}"), || {
            let mut calls = 0;
            let r = guard(|| gauss_newton(vec![0.0], NonlinearOptions { max_iter: mx, tol_rel: tr_, tol_chi2_rel: tc }, |p| { calls += 1; asm(p) }))?;
            ensure!(r.is_err() && calls == 0, "invalid options: {} calls, {:?}", calls, r.map(|x| x.parameters));
            Ok(1)
        });
    }
    for mx in 1..8usize {
        for fail_at in 0..9usize {
            l.case("gauss-newton-options", &format!("max={mx} fail={fail_at}"), || {
                let mut calls = 0;
                let r = guard(|| gauss_newton(vec![100.0], NonlinearOptions { max_iter: mx, tol_rel: 0.0, tol_chi2_rel: 0.0 }, |p| {
                    calls += 1;
                    if calls == fail_at + 1 { NormalEquations::new(1).add_row(&[(0, 1.0)], 1.0, 0.0)?; }
                    asm(p)
                }))?;
                // zero tolerances can never be undercut
                match r {
                    Ok(r) => Err(format!("converged: {:?}", r.parameters)),
                    Err(NonlinearError::DidNotConverge(k)) => { ensure!(k == mx && calls == mx && fail_at >= mx, "gave up after {calls} calls reporting {k} (limit {mx}, failure at {fail_at})"); Ok(k as u64) }
                    Err(NonlinearError::Solver(_)) => { ensure!(fail_at < mx && calls == fail_at + 1, "solver error after {calls} calls (failure at {fail_at})"); Ok(99) }
                }
            });
        }
    }
    ctx.merge(l);
    // ---- process noise -----------------------------------------------------------------------------
    let spans = [0.0, 0.5, 1.0, 10.0, 60.0, 900.0, 86400.0];
    let psds: Vec<[f64; 3]> = vec![[0.0; 3], [1e-20, 1e-18, 0.0], [1e-12, 4e-12, 9e-12], [1.0, 2.0, 3.0]];
    let gms = [None, Some((0.1, 30.0)), Some((0.0, 600.0)), Some((2.0, 5000.0))];
    let emps = [None, Some([0.0, 1e-9, 2e-9]), Some([3e-10; 3])];
    let idx = product(&[psds.len(), gms.len(), gms.len(), emps.len()]);
    ctx.par(&idx, |l, ix| {
        let gm = |g: Option<(f64, f64)>| g.map(|(s, t)| GaussMarkovParams { sigma: s, tau: secs(t) });
        let m = ProcessNoiseModel { position_velocity: WhiteAccelPsd(psds[ix[0]]), drag_scale: gm(gms[ix[1]]), srp_scale: gm(gms[ix[2]]), empirical_white: emps[ix[3]].map(|e: [f64; 3]| e.map(siderust::qtty::KmPerSecondsSquared::new)) };
        let n = 6 + usize::from(gms[ix[1]].is_some()) + usize::from(gms[ix[2]].is_some()) + if emps[ix[3]].is_some() { 3 } else { 0 };
        for &d1 in &spans {
            for &d2 in &spans {
                l.case("noise", &format!("{ix:?} {d1}+{d2}"), || {
                    ensure!(m.dim() == n, "dimension {}", m.dim());
                    let qm = |d: f64| guard(|| m.q_matrix(secs(d)))?.map_err(|e| format!("refused: {e}"));
                    let (a, b, c) = (qm(d1)?, qm(d2)?, qm(d1 + d2)?);
                    ensure!(c.len() == n && c.iter().all(|r| r.len() == n), "shape");
                    // transition over the second span
                    let mut f = eye(n);
                    for i in 0..3 {
                        f[i][i + 3] = d2;
                    }
                    let mut k = 6;
                    for g in [gms[ix[1]], gms[ix[2]]].into_iter().flatten() {
                        f[k][k] = (-d2 / g.1).exp();
                        k += 1;
                    }
                    let want = madd(&mm(&mm(&f, &a), &tr(&f)), &b, 1.0);
                    for i in 0..n {
                        for j in 0..n {
                            let s = (want[i][i] * want[j][j]).sqrt();
                            ensure!((c[i][j] - want[i][j]).abs() <= 1e-9 * s, "Q({d1}+{d2})[{i}][{j}] = {:e}, composed {:e}", c[i][j], want[i][j]);
                            ensure!(c[i][j] == c[j][i], "not symmetric");
                        }
                    }
                    if d1 + d2 == 0.0 {
                        ensure!(maxabs(&c) == 0.0, "noise over no time");
                    }
                    // correlation form: positive semidefinite
                    let dg: Vec<f64> = (0..n).map(|i| if c[i][i] > 0.0 { c[i][i].sqrt() } else { 1.0 }).collect();
                    let corr: M = (0..n).map(|i| (0..n).map(|j| c[i][j] / dg[i] / dg[j]).collect()).collect();
                    ensure!(psd(&corr, 1e-12), "noise not positive semidefinite");
                    ensure!(guard(|| m.is_psd(secs(d1 + d2)))?.map_err(|e| e.to_string())?, "reported as not positive semidefinite");
                    // absolute level: continuous white acceleration, stationary Markov process
                    let d = d1 + d2;
                    for i in 0..3 {
                        let qi = psds[ix[0]][i];
                        ensure!((c[i + 3][i + 3] - qi * d).abs() <= 1e-12 * qi * d && (c[i][i] - qi * d * d * d / 3.0).abs() <= 1e-12 * qi * d * d * d, "white noise level");
                    }
                    let mut k = 6;
                    for g in [gms[ix[1]], gms[ix[2]]].into_iter().flatten() {
                        let v = g.0 * g.0 * (1.0 - (-2.0 * d / g.1).exp());
                        ensure!((c[k][k] - v).abs() <= 1e-12 * g.0 * g.0, "Markov variance {} instead of {v}", c[k][k]);
                        k += 1;
                    }
                    if let Some(e) = emps[ix[3]] {
                        for i in 0..3 {
                            ensure!((c[k + i][k + i] - e[i] * e[i] * d).abs() <= 1e-12 * e[i] * e[i] * d, "empirical noise level");
                        }
                    }
                    Ok(hf(&c.concat()))
                });
            }
        }
    });
    let mut l = Local::default();
    let ok = ProcessNoiseModel { position_velocity: WhiteAccelPsd([1.0; 3]), drag_scale: None, srp_scale: None, empirical_white: None };
    let bads: Vec<(&str, ProcessNoiseModel, f64)> = vec![
        ("dt<0", ok, -1.0), ("dt nan", ok, f64::NAN), ("dt inf", ok, f64::INFINITY),
        ("psd<0", ProcessNoiseModel { position_velocity: WhiteAccelPsd([1.0, 1.0, -1.0]), ..ok }, 1.0),
        ("psd nan", ProcessNoiseModel { position_velocity: WhiteAccelPsd([f64::NAN, 1.0, 1.0]), ..ok }, 1.0),
        ("sigma<0", ProcessNoiseModel { drag_scale: Some(GaussMarkovParams { sigma: -1.0, tau: secs(1.0) }), ..ok }, 1.0),
        ("tau=0", ProcessNoiseModel { srp_scale: Some(GaussMarkovParams { sigma: 1.0, tau: secs(0.0) }), ..ok }, 1.0),
        ("tau nan", ProcessNoiseModel { drag_scale: Some(GaussMarkovParams { sigma: 1.0, tau: secs(f64::NAN) }), ..ok }, 1.0),
        ("emp<0", ProcessNoiseModel { empirical_white: Some([1.0, -1.0, 1.0].map(siderust::qtty::KmPerSecondsSquared::new)), ..ok }, 1.0),
    ];
    for (n, m, d) in &bads {
        l.case("noise-invalid", n, || {
            ensure!(guard(|| m.q_matrix(secs(*d)))?.is_err() && guard(|| m.is_psd(secs(*d)))?.is_err(), "accepted");
            Ok(1)
        });
    }
    // piecewise-constant schedules
    let durs = [0.0, 1.0, 10.0, 2.5];
    for s in sequences(durs.len(), 4) {
        l.case("schedule", &format!("{s:?}"), || {
            let iv: Vec<PiecewiseSegment> = s.iter().enumerate().map(|(i, d)| PiecewiseSegment { duration: secs(durs[*d]), sigma_pos_m: 1.0 + i as f64, sigma_vel_mps: 0.1 * (1.0 + i as f64) }).collect();
            let p = ProcessNoise::PiecewiseConstant { intervals: iv.clone() };
            ensure!(p.is_active(), "inactive");
            let mut ends = vec![0.0];
            for d in &s {
                ends.push(ends.last().unwrap() + durs[*d]);
            }
            let mut probes: Vec<f64> = ends.iter().flat_map(|e| [*e, *e - 0.25, *e + 0.25]).filter(|x| *x >= 0.0).collect();
            probes.push(1e6);
            for t in probes {
                let got = guard(|| p.sigma_at(secs(t)))?;
                let want = match (0..s.len()).find(|i| ends[*i] <= t && t < ends[*i + 1]) {
                    Some(i) => (iv[i].sigma_pos_m, iv[i].sigma_vel_mps),
                    None => iv.last().map_or((0.0, 0.0), |x| (x.sigma_pos_m, x.sigma_vel_mps)),
                };
                ensure!(got == want, "at {t} s: {got:?} instead of {want:?}");
            }
            Ok(s.len() as u64 + 1)
        });
    }
    // ---- covariance validators ------------------------------------------------------------------------
    let vals = [0.0, 1.0, -1.0, 1.0 + 1e-9];
    for n in 0..=2usize {
        for len in 0..=(n * n + 1) {
            for s in sequences(vals.len(), len).into_iter().filter(|s| s.len() == len) {
                l.case("validate", &format!("n={n} {s:?}"), || {
                    let params = ParameterOrdering { params: (0..n).map(|i| Parameter { kind: ParameterKind::Custom(format!("p{i}")), initial_value: 0.0, apriori_sigma: None }).collect() };
                    let data: Vec<f64> = s.iter().map(|i| vals[*i]).collect();
                    let c = ParameterCovariance { params, data: data.clone() };
                    let dim = data.len() == n * n;
                    ensure!(c.n() == n && c.validate_dim().is_ok() == dim, "dimension check");
                    for tol in [0.0, 1e-8, 1.5] {
                        let sym = dim && (0..n).all(|i| (0..n).all(|j| (data[i * n + j] - data[j * n + i]).abs() <= tol));
                        ensure!(c.validate_symmetric(tol).is_ok() == sym, "symmetry check at {tol}");
                    }
                    let nn = dim && (0..n).all(|i| data[i * n + i] >= 0.0);
                    ensure!(c.validate_diagonal_nonneg().is_ok() == nn, "diagonal check");
                    Ok(1 + u64::from(dim))
                });
            }
        }
    }
    ctx.merge(l);
    ctx
}
