//! C22: star catalogue queries, against a unit-vector separation oracle on an exhaustive sky grid.
use crate::core::*;
use siderust::catalogs::{parse_csv_chunk, CatalogFilter, CatalogIngestError, CatalogRecord, LargeStarCatalog};
use siderust::qtty::Radians;
use std::f64::consts::{PI, TAU};

fn unit(ra: f64, dec: f64) -> [f64; 3] {
    [dec.cos() * ra.cos(), dec.cos() * ra.sin(), dec.sin()]
}
/// Separation by Kahan's formula: accurate at every angle.
fn sep(a: [f64; 3], b: [f64; 3]) -> f64 {
    let d = ((a[0] - b[0]).powi(2) + (a[1] - b[1]).powi(2) + (a[2] - b[2]).powi(2)).sqrt();
    let s = ((a[0] + b[0]).powi(2) + (a[1] + b[1]).powi(2) + (a[2] + b[2]).powi(2)).sqrt();
    2.0 * d.atan2(s)
}
fn rec(id: u64, ra: f64, dec: f64) -> CatalogRecord {
    CatalogRecord {
        source_id: id, ra: Radians::new(ra), dec: Radians::new(dec), epoch_jyr: 2016.0,
        pm_ra_cosdec: None, pm_dec: None, parallax: None, radial_velocity: None,
        g_mag: match id % 4 { 0 => None, k => Some(8.0 + k as f64) }, bp_mag: None, rp_mag: None, quality_ok: id % 3 != 0,
    }
}
/// The reference filter semantics.
fn passes(r: &CatalogRecord, max_g: Option<f64>, q: Option<bool>) -> bool {
    max_g.is_none_or(|m| r.g_mag.is_some_and(|g| g <= m)) && q.is_none_or(|q| r.quality_ok == q)
}
fn filters() -> Vec<(Option<f64>, Option<bool>)> {
    let mut v = vec![];
    for m in [None, Some(8.9), Some(9.0), Some(10.5), Some(99.0)] {
        for q in [None, Some(true), Some(false)] {
            v.push((m, q));
        }
    }
    v
}

pub fn run(tier: Tier) -> Ctx {
    let mut ctx = Ctx::new("C22", "exploration", tier,
        "product of a sky grid of stars (poles, seam, generic) x centres on the same kind of grid x radii from 0 to the whole sky x magnitude/quality filters x chunk sizes; every column subset, order and single-field corruption of an ingested table; proper-motion grid. Oracle: chord-based separation of unit vectors. Non-trivial: the query returned some but not all stars, or a refusal/parse with content.");
    ctx.assumptions = vec!["stars within 1e-9 rad of the cone edge may fall on either side (2e-6 rad for separations within 1e-3 of a half turn, where arcsine conditioning limits any haversine implementation)".into()];
    let nd = ctx.pick(13, 25);
    let nr = ctx.pick(16, 32);
    let mut cat = LargeStarCatalog::new();
    let mut recs = vec![];
    let mut id = 0;
    for i in 0..nd {
        let dec = -PI / 2.0 + PI * i as f64 / (nd - 1) as f64;
        for j in 0..nr {
            let ra = TAU * j as f64 / nr as f64 + if i % 2 == 0 { 0.0 } else { 1e-3 };
            recs.push(rec(id, ra, dec));
            id += 1;
        }
    }
    // seam and near-pole extras, non-canonical right ascensions
    for (ra, dec) in [(0.0, 0.0), (TAU - 1e-6, 0.0), (1e-6, 0.1), (TAU, 0.2), (-1e-3, 0.0), (0.0, PI / 2.0 - 1e-6), (PI, PI / 2.0 - 1e-6), (3.0, -PI / 2.0 + 1e-7)] {
        recs.push(rec(id, ra, dec));
        id += 1;
    }
    cat.extend(recs.iter().cloned());
    for (i, r) in recs.iter().enumerate() {
        let (a, b) = (r.ra.value(), cat.records()[i].ra.value());
        assert!(a == b && cat.len() == recs.len(), "catalogue lost records");
    }
    let radii: Vec<f64> = [0.0, 1e-9, 1e-6, 1e-3, 0.1, 0.3, 0.7853, 1.0, 1.5, PI / 2.0, 1.6, 2.0, 2.5, 3.0, 3.1, PI - 1e-4, PI, 4.0, -0.1].to_vec();
    let mut centres = vec![];
    for i in 0..ctx.pick(9, 19) {
        for j in 0..ctx.pick(8, 16) {
            centres.push((TAU * j as f64 / ctx.pick(8.0, 16.0), -PI / 2.0 + PI * i as f64 / ctx.pick(8.0, 18.0)));
        }
    }
    centres.extend([(0.0, PI / 2.0), (1.0, PI / 2.0 - 1e-7), (TAU - 1e-7, 0.0), (0.03, 0.02), (-0.5, 0.3), (TAU + 0.5, -0.3)]);
    let fl = filters();
    let nstars = recs.len();
    let chunks = [1usize, 2, 3, 7, nstars - 1, nstars, nstars + 1, 0];
    ctx.par(&centres, |l, &(cra, cdec)| {
        let c = unit(cra, cdec);
        for &r in &radii {
            for (fi, &(mg, q)) in fl.iter().enumerate() {
                if fi != 0 && r != 0.3 && r != 2.0 {
                    continue;
                }
                let f = CatalogFilter { max_g_mag: mg, require_quality: q };
                l.case("cone", &format!("c=({cra:.6},{cdec:.6}) r={r} f={fi}"), || {
                    let got: Vec<u64> = cat.cone_search(Radians::new(cra), Radians::new(cdec), Radians::new(r), f.clone()).iter().map(|x| x.source_id).collect();
                    let mut gi = got.iter().peekable();
                    for s in &recs {
                        let d = sep(unit(s.ra.value(), s.dec.value()), c);
                        let inside = d <= r && passes(s, mg, q);
                        let tol = if d > PI - 1e-3 || r > PI - 1e-3 { 2e-6 } else { 1e-9 };
                        let edge = (d - r).abs() <= tol && passes(s, mg, q);
                        let present = gi.peek() == Some(&&s.source_id);
                        if present {
                            gi.next();
                        }
                        ensure!(edge || present == inside, "star {} at separation {d:.9} present={present} expected={inside}", s.source_id);
                    }
                    ensure!(gi.next().is_none(), "result not in catalogue order or has strays");
                    // chunked answers concatenate to the plain answer, whatever the chunk size
                    for &ch in &chunks {
                        let parts: Vec<Vec<u64>> = cat.cone_search_chunked(Radians::new(cra), Radians::new(cdec), Radians::new(r), f.clone(), ch).map(|v| v.iter().map(|x| x.source_id).collect()).collect();
                        let flat: Vec<u64> = parts.iter().flatten().copied().collect();
                        ensure!(flat == got, "chunk size {ch}: chunked answer differs ({} vs {})", flat.len(), got.len());
                        ensure!(parts.len() == nstars.div_ceil(ch.max(1)), "chunk size {ch}: {} chunks", parts.len());
                    }
                    // same epoch, no proper motion: the at-epoch query is the plain query
                    let ep: Vec<u64> = cat.cone_search_at_epoch(Radians::new(cra), Radians::new(cdec), Radians::new(r), 2100.0, f.clone()).iter().map(|x| x.source_id).collect();
                    ensure!(ep == got, "epoch query without motion differs");
                    Ok(if got.is_empty() || got.len() == nstars { 0 } else { fnv(&got.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<_>>()) })
                });
            }
        }
    });
    // Proper motion.
    let mut l = Local::default();
    let mas = PI / 180.0 / 3.6e6;
    for &ra in &[0.0, 0.5, 3.0, TAU - 1e-7] {
        for &dec in &[-PI / 2.0 + 1e-6, -1.57, -1.5, -1.2, -0.7, -0.3, 0.0, 0.3, 0.7, 1.2, 1.5, 1.57, PI / 2.0 - 1e-6] {
            for &pa in &[None, Some(0.0), Some(10.0), Some(-3000.0), Some(10000.0)] {
                for &pd in &[None, Some(0.0), Some(-25.0), Some(10000.0), Some(-10000.0)] {
                    for &dt in &[0.0, 1.0, -50.0, 100.0, 2000.0, -2000.0] {
                        l.case("motion", &format!("ra={ra} dec={dec} pa={pa:?} pd={pd:?} dt={dt}"), || {
                            let mut r = rec(1, ra, dec);
                            r.pm_ra_cosdec = pa;
                            r.pm_dec = pd;
                            let (a2, d2) = r.propagate_to(r.epoch_jyr + dt);
                            let (a2, d2) = (a2.value(), d2.value());
                            let (Some(pa), Some(pd)) = (pa, pd) else {
                                ensure!(sep(unit(a2, d2), unit(ra, dec)) < 1e-12, "moved without a proper motion");
                                return Ok(0);
                            };
                            // linear motion in the equatorial coordinates, folded over the pole
                            let e = unit(ra + pa * mas * dt / dec.cos(), dec + pd * mas * dt);
                            ensure!(sep(unit(a2, d2), e) < 1e-9, "propagated to ({a2},{d2})");
                            ensure!((0.0..TAU + 1e-12).contains(&a2) && d2.abs() <= PI / 2.0 + 1e-12, "not canonical: ({a2},{d2})");
                            // round trip through the stated rate
                            if dt != 0.0 && dec.abs() < 1.3 {
                                let moved = sep(unit(a2, d2), unit(ra, dec));
                                let rate = (pa * pa + pd * pd).sqrt() * mas * dt.abs();
                                if rate < 1e-3 {
                                    ensure!((moved - rate).abs() < 1e-9 + rate * 1e-2, "moved {moved} for rate {rate}");
                                }
                            }
                            // epoch query sees the moved star and not the old place
                            let mut c = LargeStarCatalog::new();
                            c.push(r.clone());
                            let rad = 1e-8;
                            let f = CatalogFilter { max_g_mag: None, require_quality: None };
                            ensure!(c.cone_search_at_epoch(Radians::new(a2), Radians::new(d2), Radians::new(rad), r.epoch_jyr + dt, f.clone()).len() == 1, "moved star not found at its new place");
                            let moved = sep(unit(a2, d2), unit(ra, dec));
                            if moved > 1e-6 {
                                ensure!(c.cone_search_at_epoch(Radians::new(ra), Radians::new(dec), Radians::new(rad), r.epoch_jyr + dt, f.clone()).is_empty(), "moved star still at its old place");
                                ensure!(c.cone_search(Radians::new(ra), Radians::new(dec), Radians::new(rad), f).len() == 1, "plain query moved the star");
                            }
                            Ok(hf(&[a2, d2]))
                        });
                    }
                }
            }
        }
    }
    ctx.merge(l);
    // CSV ingest: every subset of optional columns, several orders, every single-field corruption.
    const COLS: [&str; 12] = ["source_id", "ra", "dec", "epoch", "pmra", "pmdec", "parallax", "radial_velocity", "g_mag", "bp_mag", "rp_mag", "quality"];
    let vals: Vec<[&str; 12]> = vec![
        ["1", "10.5", "-20.25", "2016.0", "1.5", "-2.5", "3.25", "-40.0", "9.5", "9.9", "9.1", "1"],
        ["18446744073709551615", "359.999", "90", "2000", "0", "0", "1", "2", "3", "4", "5", "true"],
        ["7", "0", "-90", "1991.25", "-1e3", "1e3", "0.1", "1e2", "20.5", "21", "19", "0"],
        ["8", "180", "0", "2016", "", "", "", "", "", "", "", ""],
        ["9", "1", "2", "2016", "1", "", "", "7", "", "", "12", "OK"],
        ["10", "1", "2", "2016", "", "5", "6", "", "1", "", "", "bad"],
    ];
    let subsets: Vec<usize> = (0..256).collect();
    ctx.par(&subsets, |l, &mask| {
        let mut cols: Vec<usize> = vec![0, 1, 2, 3];
        for b in 0..8 {
            if mask >> b & 1 == 1 {
                cols.push(4 + b);
            }
        }
        for (oi, order) in ["fwd", "rev", "rot", "upper"].iter().enumerate() {
            let mut c = cols.clone();
            match *order {
                "rev" => c.reverse(),
                "rot" => { let n = c.len(); c.rotate_left(n / 2) }
                _ => {}
            }
            let hdr = c.iter().map(|&i| if oi == 3 { COLS[i].to_uppercase() } else { COLS[i].to_string() }).collect::<Vec<_>>().join(", ");
            let row = |v: &[&str; 12]| c.iter().map(|&i| v[i]).collect::<Vec<_>>().join(if oi == 1 { " , " } else { "," });
            let text = format!("# comment\n\n{hdr}\n{}\n\n# mid\n{}\n", row(&vals[0]), vals[1..].iter().map(row).collect::<Vec<_>>().join("\n"));
            l.case("csv", &format!("mask={mask} {order}"), || {
                let out = parse_csv_chunk(&text).map_err(|e| format!("refused valid table: {e}"))?;
                ensure!(out.len() == vals.len(), "{} rows", out.len());
                for (r, v) in out.iter().zip(&vals) {
                    let opt = |k: usize| -> Option<f64> { if c.contains(&k) && !v[k].is_empty() { Some(v[k].parse().unwrap()) } else { None } };
                    ensure!(r.source_id == v[0].parse::<u64>().unwrap(), "source id {}", r.source_id);
                    ensure!((r.ra.value() - v[1].parse::<f64>().unwrap().to_radians()).abs() < 1e-12 && (r.dec.value() - v[2].parse::<f64>().unwrap().to_radians()).abs() < 1e-12, "position");
                    ensure!(r.epoch_jyr == v[3].parse::<f64>().unwrap(), "epoch");
                    ensure!(r.pm_ra_cosdec == opt(4) && r.pm_dec == opt(5) && r.parallax.map(|p| p.value()) == opt(6) && r.radial_velocity.map(|p| p.value()) == opt(7) && r.g_mag == opt(8) && r.bp_mag == opt(9) && r.rp_mag == opt(10),
                        "optional values of {v:?} -> {r:?}");
                    let q = !c.contains(&11) || v[11].is_empty() || matches!(v[11].to_ascii_lowercase().as_str(), "1" | "true" | "ok");
                    ensure!(r.quality_ok == q, "quality of {v:?}");
                }
                Ok(hstr(&hdr))
            });
            // single-field corruption: the failing column and the physical line are reported
            if mask == 255 || mask == 0 || mask == 0b1010_0101 {
                for (vi, _) in vals.iter().enumerate() {
                    for &bad in &c {
                        if bad == 11 { continue; }
                        for txt in ["x1", "1.2.3", ""] {
                            let mut vv = vals.clone();
                            vv[vi][bad] = txt;
                            let text = format!("# comment\n\n{hdr}\n{}\n", vv.iter().map(row).collect::<Vec<_>>().join("\n"));
                            let line = 4 + vi;
                            l.case("csv-fault", &format!("mask={mask} {order} row={vi} col={bad} txt={txt:?}"), || {
                                let r = parse_csv_chunk(&text);
                                if txt.is_empty() {
                                    if bad >= 4 {
                                        ensure!(r.is_ok(), "empty optional field refused");
                                        return Ok(3);
                                    }
                                    match r {
                                        Err(CatalogIngestError::MissingColumn { column, line: ln }) => ensure!(column == COLS[bad] && ln == line, "reported {column} line {ln}, expected {} line {line}", COLS[bad]),
                                        other => return Err(format!("expected missing column, got {:?}", other.map(|v| v.len()))),
                                    }
                                } else {
                                    match r {
                                        Err(CatalogIngestError::InvalidNumber { column, line: ln, raw }) => ensure!(column == COLS[bad] && ln == line && raw == txt, "reported {column} line {ln} {raw}, expected {} line {line}", COLS[bad]),
                                        other => return Err(format!("expected invalid number, got {:?}", other.map(|v| v.len()))),
                                    }
                                }
                                Ok(hstr(&format!("{bad}{txt}")))
                            });
                        }
                    }
                }
            }
        }
        // a required column absent from the header
        for drop in 0..4 {
            let c2: Vec<usize> = cols.iter().copied().filter(|&i| i != drop).collect();
            let text = format!("{}\n{}\n", c2.iter().map(|&i| COLS[i]).collect::<Vec<_>>().join(","), c2.iter().map(|&i| vals[0][i]).collect::<Vec<_>>().join(","));
            l.case("csv-missing", &format!("mask={mask} drop={drop}"), || match parse_csv_chunk(&text) {
                Err(CatalogIngestError::MissingColumn { column, line }) => {
                    ensure!(column == COLS[drop] && line == 2, "reported {column} at {line}");
                    Ok(1 + drop as u64)
                }
                other => Err(format!("expected a missing column, got {:?}", other.map(|v| v.len()))),
            });
        }
    });
    ctx
}
