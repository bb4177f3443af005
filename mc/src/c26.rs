//! C26: sky grids over every bounded combination of altitude range, steps and grid kind.
use crate::core::*;
use siderust::coordinates::SkyGrid;
use siderust::qtty::Degrees;
use std::f64::consts::{PI, TAU};

pub fn run(tier: Tier) -> Ctx {
    let mut ctx = Ctx::new("C26", "exploration", tier,
        "all combinations of grid kind, altitude step, azimuth step and altitude range (whole sky, hemisphere, masks, bands below the horizon, empty and inverted) with steps that divide the range and steps that do not; every cell of every grid is visited through all four traversals; a lattice of directions is located in the cells. Non-trivial: a non-empty grid was judged.");
    ctx.assumptions = vec!["a cell is the box of one altitude step by one azimuth step (the ring's own step for equal-area grids) around its direction; tiling is judged where the steps divide the range and the circle; the solid angle of a cell lies between its exact value and the documented mid-altitude product".into()];
    let mut steps: Vec<f64> = vec![0.5, 1.0, 2.0, 2.5, 3.0, 5.0, 7.5, 10.0, 15.0, 22.5, 30.0, 45.0, 90.0, 7.0, 11.0, 13.7, 25.0, 40.0, 50.0, 70.0, 100.0];
    if tier == Tier::Thorough {
        steps.extend([0.25, 0.3, 1.2, 1.7, 4.0, 6.0, 8.0, 9.0, 12.0, 18.0, 20.0, 33.0, 36.0, 60.0, 120.0]);
    }
    let ranges: Vec<(f64, f64)> = vec![(0.0, 90.0), (-90.0, 90.0), (10.0, 90.0), (30.0, 60.0), (-30.0, 30.0), (-90.0, 0.0), (-12.5, 77.5), (85.0, 90.0), (0.0, 2.0), (20.0, 20.0), (50.0, 40.0)];
    let mut items = vec![];
    for kind in ["uniform", "steps", "equal"] {
        for &s in &steps {
            for &a in &steps {
                if kind == "uniform" && a != s || (s < 0.5 && a < 0.5) {
                    continue;
                }
                for r in 0..=ranges.len() {
                    items.push((kind, s, a, r));
                }
            }
        }
    }
    ctx.par(&items, |l, &(kind, s, a, ri)| {
        let d = Degrees::new;
        let (lo, hi) = if ri == 0 { (0.0, 90.0) } else { ranges[ri - 1] };
        l.case("grid", &format!("{kind} alt_step={s} az_step={a} range={}", if ri == 0 { "default".into() } else { format!("{lo}..{hi}") }), || {
            let mut g = match kind { "uniform" => SkyGrid::uniform(d(s)), "steps" => SkyGrid::with_steps(d(s), d(a)), _ => SkyGrid::equal_area(d(s), d(a)) };
            if ri > 0 {
                g = g.with_alt_range(d(lo), d(hi));
            }
            let cells: Vec<(f64, f64, f64)> = guard(|| g.iter_cells().map(|c| (c.direction.polar.value(), c.direction.azimuth.value(), c.solid_angle.value())).collect())?;
            let n = cells.len();
            ensure!(g.len() == n && g.is_empty() == (n == 0), "len {} (empty: {}) but {n} cells", g.len(), g.is_empty());
            let b: Vec<(f64, f64)> = g.iter().map(|x| (x.polar.value(), x.azimuth.value())).collect();
            let c: Vec<(f64, f64)> = (&g).into_iter().map(|x| (x.polar.value(), x.azimuth.value())).collect();
            let e: Vec<(f64, f64, f64)> = g.with_solid_angle().map(|(x, w)| (x.polar.value(), x.azimuth.value(), w.value())).collect();
            ensure!(b == c && e == cells && b.iter().zip(&cells).all(|(x, y)| x.0 == y.0 && x.1 == y.1) && b.len() == n, "traversals differ");
            if hi <= lo {
                ensure!(n == 0, "{n} cells in an empty range");
                return Ok(0);
            }
            // rings
            let mut rings: Vec<(f64, Vec<(f64, f64)>)> = vec![];
            for (al, az, w) in &cells {
                ensure!(*al >= lo - 1e-9 && *al <= hi + 1e-9, "cell at altitude {al} outside {lo}..{hi}");
                ensure!(*w > -1e-12 && w.is_finite(), "solid angle {w}");
                match rings.last_mut() {
                    Some(r) if (r.0 - al).abs() < 1e-9 => r.1.push((*az, *w)),
                    Some(r) => { ensure!(*al > r.0, "altitudes not ascending: {al} after {}", r.0); rings.push((*al, vec![(*az, *w)])) }
                    None => rings.push((*al, vec![(*az, *w)])),
                }
            }
            let ratio = (hi - lo) / s;
            let near = (ratio - ratio.round()).abs() > 0.499_999;
            ensure!(near || rings.len() == ratio.round() as usize, "{} altitude rows instead of {}", rings.len(), ratio.round());
            let mut total = 0.0;
            for (i, (al, r)) in rings.iter().enumerate() {
                ensure!((al - (lo + (i as f64 + 0.5) * s)).abs() < 1e-9, "row {i} at altitude {al}");
                let k = r.len() as f64;
                let daz = if kind == "equal" { 360.0 / k } else { a };
                let want_k = if kind == "equal" { (360.0 * al.to_radians().cos().max(0.0) / a).max(1.0) } else { 360.0 / a };
                ensure!((want_k - k).abs() <= 0.5 + 1e-6, "{k} cells in the row at {al} instead of {want_k}");
                for (j, (az, w)) in r.iter().enumerate() {
                    ensure!((az - (j as f64 + 0.5) * daz).abs() < 1e-9, "cell {j} of row {al} at azimuth {az}");
                    ensure!((0.0..360.0).contains(az) || (360.0 / a).fract() == 0.5, "azimuth {az}");
                    let exact = 2.0 * al.to_radians().cos() * (s / 2.0).to_radians().sin() * daz.to_radians();
                    let mid = al.to_radians().cos() * s.to_radians() * daz.to_radians();
                    ensure!(*w >= exact - 1e-12 && *w <= mid + 1e-12, "solid angle {w} of the cell at {al}/{az}, exact {exact}, mid-altitude {mid}");
                    total += w;
                }
            }
            let tiles = (ratio - ratio.round()).abs() < 1e-9 && (kind == "equal" || (360.0 / a).fract() == 0.0);
            if tiles {
                let area = TAU * (hi.to_radians().sin() - lo.to_radians().sin());
                let x = (s / 2.0).to_radians();
                ensure!(total >= area * (1.0 - 1e-9) && total <= area * x / x.sin() * (1.0 + 1e-9), "areas add up to {total} instead of {area}");
                // each probe direction lies in exactly one cell
                for i in 0..7 {
                    let al = lo + (hi - lo) * (i as f64 + 0.31) / 7.0;
                    for j in 0..12 {
                        let az = 360.0 * (j as f64 + 0.137) / 12.0;
                        let mut hits = 0;
                        for (ra, r) in &rings {
                            if (al - ra).abs() < s / 2.0 {
                                let daz = if kind == "equal" { 360.0 / r.len() as f64 } else { a };
                                hits += r.iter().filter(|c| { let q = (az - c.0 + 180.0).rem_euclid(360.0) - 180.0; q >= -daz / 2.0 && q < daz / 2.0 }).count();
                            }
                        }
                        let edge = ((al - lo) / s).fract();
                        ensure!(hits == 1 || edge < 1e-9 || edge > 1.0 - 1e-9, "direction {al}/{az} lies in {hits} cells");
                    }
                }
            }
            Ok(hf(&[n as f64, total, PI]))
        });
    });
    ctx
}
