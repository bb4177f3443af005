//! C20: mission geometry against exact spherical/vector geometry.
use crate::core::*;
use affn::cartesian::{Direction, Displacement, Position, Velocity};
use affn::frames::GCRS;
use affn::{DeriveReferenceCenter, DeriveReferenceFrame};
use siderust::astro::dynamics::forces::srp::{Conical, Cylindrical, EclipseModel, NoEclipse};
use siderust::astro::dynamics::OrbitState;
use siderust::mission::geometry::*;
use siderust::pod::qc::{rtn_diff, rtn_summary};
use siderust::qtty::unit::{Kilometer, Meter, Second};
use siderust::qtty::{Meters, Per, Quantity, Radians};
use siderust::time::JulianDate;
use std::f64::consts::{PI, TAU};

#[derive(Debug, Clone, Copy, DeriveReferenceCenter)]
struct C;
#[derive(Debug, Clone, Copy, DeriveReferenceFrame)]
struct F;
type P = Position<C, F, Meter>;
type V3 = [f64; 3];
fn p(v: V3) -> P {
    P::new(v[0], v[1], v[2])
}
fn m(x: f64) -> Meters {
    Quantity::new(x)
}
fn add(a: V3, b: V3) -> V3 {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
fn sub(a: V3, b: V3) -> V3 {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
fn sc(a: V3, k: f64) -> V3 {
    [a[0] * k, a[1] * k, a[2] * k]
}
fn dot(a: V3, b: V3) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
fn cross(a: V3, b: V3) -> V3 {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn nrm(a: V3) -> f64 {
    dot(a, a).sqrt()
}
fn angle(a: V3, b: V3) -> f64 {
    nrm(cross(a, b)).atan2(dot(a, b))
}
fn unit(a: V3) -> V3 {
    sc(a, 1.0 / nrm(a))
}
/// Rotations used everywhere: identity, generic, and axis swaps.
fn rots() -> Vec<[V3; 3]> {
    let mk = |a: f64, b: f64| {
        let (ca, sa, cb, sb) = (a.cos(), a.sin(), b.cos(), b.sin());
        [[ca, -sa * cb, sa * sb], [sa, ca * cb, -ca * sb], [0.0, sb, cb]]
    };
    vec![mk(0.0, 0.0), mk(0.7, 1.9), mk(-2.4, 0.3), [[0.0, 0.0, 1.0], [1.0, 0.0, 0.0], [0.0, 1.0, 0.0]]]
}
fn ap(r: &[V3; 3], v: V3) -> V3 {
    [dot(r[0], v), dot(r[1], v), dot(r[2], v)]
}
/// Share of a spherical cap (radius at around t) covered by another cap (radius ao around o).
fn cap_share(at: f64, ao: f64, sep: f64) -> f64 {
    // rings of the target cap weighted by solid angle
    let n = 400;
    let (mut tot, mut hid) = (0.0, 0.0);
    for i in 0..n {
        let r = at * (i as f64 + 0.5) / n as f64;
        let w = r.sin();
        tot += w;
        // part of the ring at distance r from t lying within ao of o
        let c = (ao.cos() - sep.cos() * r.cos()) / (sep.sin() * r.sin());
        let f = if sep < 1e-12 { if r <= ao { 1.0 } else { 0.0 } } else if c <= -1.0 { 1.0 } else if c >= 1.0 { 0.0 } else { c.acos() / PI };
        hid += w * f;
    }
    hid / tot
}
pub fn run(tier: Tier) -> Ctx {
    let mut ctx = Ctx::new("C20", "exploration", tier,
        "placements of observer, target and occulter (near, far, grazing, aligned, behind the target, low orbit to deep space) x separations from aligned to apart x common rotations; segment/sphere placements for line of sight; look angles over latitude/longitude including poles x directions including zenith, nadir, north seam; all orders and angle representations of up to 5 mask samples; orbit states for local frames. Oracle: spherical-cap overlap by integration, closest approach of a segment, explicit vectors. Non-trivial: a value was compared.");
    ctx.assumptions = vec!["observers inside a body and exact contact (within 1e-6 relative) are not judged; partial fractions agree to 0.015 (planar discs) for discs below 20 degrees".into()];
    // ---- occultation -----------------------------------------------------------------------
    let re = 6371e3;
    let rs = 695_700e3;
    let au = 1.496e11;
    // (target radius, target distance, occulter radius, occulter distance)
    let mut cfg: Vec<(&str, f64, f64, f64, f64)> = vec![];
    for alt in [300e3, 800e3, 2000e3, 20_200e3, 35_786e3, 300_000e3, 1.5e9] {
        cfg.push(("sun-earth", rs, au, re, re + alt));
    }
    for d in [3.0e8, 3.84e8, 4.06e8] {
        cfg.push(("sun-moon", rs, au, 1737e3, d));
    }
    cfg.extend([("small", 1.0, 50.0, 1.0, 10.0), ("equal", 1.0, 10.0, 0.9, 9.0), ("annular", 3.0, 20.0, 0.5, 10.0), ("point", 1e-6, 10.0, 1.0, 5.0), ("behind", 1.0, 5.0, 2.0, 30.0), ("behind-near", 0.1, 40.0, 10.0, 45.0), ("moon-behind-earth", 1737e3, 3.84e8, re, 7e6), ("sat-beyond-limb", 5.0, 5.0e6, re, re + 400e3), ("sat-before-limb", 5.0, 5.0e5, re, re + 400e3)]);
    let n_sep = ctx.pick(60, 400);
    ctx.par(&cfg, |l, &(name, tr, td, or_, od)| {
        let at = (tr / td).asin();
        let ao = (or_ / od).asin();
        let front = td * td < od * od - or_ * or_;
        let mut seps: Vec<f64> = (0..n_sep).map(|i| (ao + at) * 1.15 * i as f64 / n_sep as f64).collect();
        for c in [ao + at, (ao - at).abs()] {
            for d in [-0.3, -0.1, -0.01, -1e-4, 1e-4, 0.01, 0.1, 0.3] {
                seps.push(c + d * at.min(ao));
            }
        }
        seps.extend([1.0, 2.0, 3.0, PI]);
        seps.retain(|s| *s >= 0.0 && *s <= PI);
        seps.sort_by(f64::total_cmp);
        let mut last = f64::INFINITY;
        for &sep in &seps {
            l.case("occultation", &format!("{name} od={od:e} sep={sep}"), || {
                let want = if front { 0.0 } else { cap_share(at, ao, sep) };
                let mut vals = vec![];
                for (k, r) in rots().iter().enumerate() {
                    let t = ap(r, [td, 0.0, 0.0]);
                    let o = ap(r, [od * sep.cos(), od * sep.sin(), 0.0]);
                    let obs = if k % 2 == 0 { [0.0; 3] } else { ap(r, [0.3 * od, -0.2 * od, 0.11 * od]) };
                    let f = guard(|| occultation_fraction(&p(obs), &p(add(t, obs)), m(tr), &p(add(o, obs)), m(or_)))?;
                    ensure!((0.0..=1.0).contains(&f), "fraction {f}");
                    vals.push(f);
                    // exact states away from contact
                    let out = sep - (at + ao);
                    let full = ao - at - sep;
                    let margin = 1e-6 * (1.0 + td / 1e9 * 0.0);
                    let st = guard(|| eclipse_state(&p(obs), &p(add(t, obs)), m(tr), &p(add(o, obs)), m(or_)))?;
                    let ecl = guard(|| solar_eclipsing(&p(obs), &p(add(t, obs)), m(tr), &p(add(o, obs)), m(or_)))?;
                    ensure!(ecl == (st != EclipseState::Sunlight), "solar_eclipsing {ecl} but state {st:?}");
                    if front || out > margin {
                        ensure!(f == 0.0 && st == EclipseState::Sunlight, "no overlap, but fraction {f}, state {st:?} (target radius {at}, occulter radius {ao}, separation {sep})");
                    } else if full > margin {
                        ensure!(f > 1.0 - 1e-9 && st == EclipseState::Umbra, "fully covered, but fraction {f}, state {st:?} (target radius {at}, occulter radius {ao}, separation {sep})");
                    } else if out < -margin && full < -margin {
                        ensure!(f > 0.0 && f < 1.0 && st == EclipseState::Penumbra, "partly covered, but fraction {f}, state {st:?} (target radius {at}, occulter radius {ao}, separation {sep})");
                    }
                    if at < 0.35 && (ao < 0.35 || at < 0.02) {
                        ensure!((f - want).abs() < 0.015 + 1e-15 * (ao / at).powi(3), "fraction {f} instead of {want} (target radius {at}, occulter radius {ao}, separation {sep})");
                    }
                }
                let (lo, hi) = (vals.iter().cloned().fold(f64::MAX, f64::min), vals.iter().cloned().fold(f64::MIN, f64::max));
                let wob = 1e-6 + 1e-15 / at / at.max(1e-9) * 1e4;
                ensure!(hi - lo <= wob.min(0.5) || at < 2e-6, "fraction changes from {lo} to {hi} under a common rotation or shift");
                ensure!(vals[0] <= last + 1e-9 + wob || at < 2e-6, "fraction grows from {last} to {} as the bodies separate", vals[0]);
                last = vals[0];
                Ok(hf(&[vals[0], sep]))
            });
            // the same eclipse seen by the radiation-pressure shadow models
            if name == "sun-earth" {
                l.case("shadow", &format!("{name} od={od:e} sep={sep}"), || {
                    let km = 1e-3;
                    let rr = 6378.137;
                    let d_e = od * km + 7.137;
                    for r in rots() {
                        let to_sun = ap(&r, [td * km, 0.0, 0.0]);
                        let to_e = ap(&r, [d_e * sep.cos(), d_e * sep.sin(), 0.0]);
                        let sat = sc(to_e, -1.0);
                        let sun = add(sat, to_sun);
                        let d = |v: V3| Displacement::<GCRS, Kilometer>::new(v[0], v[1], v[2]);
                        let (n, cy, co) = (NoEclipse::eclipse_factor(d(sat), d(sun)).value(), Cylindrical::eclipse_factor(d(sat), d(sun)).value(), Conical::eclipse_factor(d(sat), d(sun)).value());
                        ensure!(n == 1.0, "no-eclipse factor {n}");
                        ensure!((0.0..=1.0).contains(&co) && (cy == 0.0 || cy == 1.0), "factors {co} / {cy}");
                        let (ae, as_) = ((rr / d_e).asin(), (695_700.0 / nrm(to_sun)).asin());
                        if (sep - (ae + as_)).abs() > 1e-5 && (sep - (ae - as_).abs()).abs() > 1e-5 {
                            let want = 1.0 - cap_share(as_, ae, sep);
                            ensure!((co - want).abs() < 0.015, "conical factor {co} instead of {want} (sep {sep}, earth {ae}, sun {as_})");
                            if sep > ae + as_ {
                                ensure!(co == 1.0, "sunlit, factor {co}");
                            }
                            if sep < ae - as_ {
                                ensure!(co == 0.0, "in umbra, factor {co}");
                            }
                        }
                        // cylinder: behind the Earth and closer than its radius to the axis
                        let s = unit(sun);
                        let along = dot(sat, s);
                        let perp = nrm(sub(sat, sc(s, along)));
                        if along.abs() > 1.0 && (perp - rr).abs() > 1.0 {
                            ensure!((cy == 0.0) == (along < 0.0 && perp < rr), "cylindrical factor {cy} at along {along} perp {perp}");
                        }
                    }
                    Ok(hf(&[sep, od]))
                });
            }
        }
    });
    // ---- line of sight ---------------------------------------------------------------------
    let g: Vec<f64> = ctx.pick(vec![-3.0, -1.2, -0.6, 0.0, 0.3, 0.99, 2.0], vec![-5.0, -3.0, -1.2, -1.0, -0.6, -0.2, 0.0, 0.3, 0.8, 0.99, 1.01, 1.5, 2.0, 7.0]);
    let mut segs = vec![];
    for &x in &g {
        for &y in &g {
            for &z in &[-1.1, 0.0, 0.4] {
                segs.push([x, y, z]);
            }
        }
    }
    ctx.par(&segs, |l, &a| {
        for &b in &segs {
            for scale in [1.0, 6.4e6] {
                l.case("line-of-sight", &format!("{a:?} {b:?} x{scale}"), || {
                    let d = sub(b, a);
                    let t = if dot(d, d) == 0.0 { 0.0 } else { (-dot(a, d) / dot(d, d)).clamp(0.0, 1.0) };
                    let near = nrm(add(a, sc(d, t)));
                    let mut h = 0;
                    for r in rots() {
                        let (pa, pb) = (p(sc(ap(&r, a), scale)), p(sc(ap(&r, b), scale)));
                        let got = line_of_sight_obstructed(&pa, &pb, m(scale));
                        let back = line_of_sight_obstructed(&pb, &pa, m(scale));
                        if (near - 1.0).abs() < 1e-7 {
                            return Ok(0);
                        }
                        ensure!(got == (near < 1.0), "obstructed {got}, closest approach {near} radii");
                        ensure!(back == got, "not symmetric: {got} / {back}");
                        h = got as u64 + 1;
                    }
                    Ok(h)
                });
            }
        }
    });
    // ---- look angles -----------------------------------------------------------------------
    let mut items = vec![];
    for la in [-90.0f64, -45.0, 0.0, 30.0, 51.4778, 89.9999, 90.0] {
        for lo in [-180.0f64, -70.0, 0.0, 12.3, 90.0, 180.0, 300.0] {
            items.push((la, lo));
        }
    }
    let azs: Vec<f64> = (0..ctx.pick(25, 73)).map(|i| i as f64 * 360.0 / ctx.pick(24.0, 72.0)).chain([1e-9, 359.999_999_999]).collect();
    // The angles are typed as degrees. Whether they hold degrees is judged on its own; the
    // geometry below is judged in whichever unit the values are in.
    let aim = |el: f64, az: f64| {
        let (se, ce) = el.to_radians().sin_cos();
        let (sa, ca) = az.to_radians().sin_cos();
        let z = Velocity::<F, Per<Meter, Second>>::new(0.0, 0.0, 0.0);
        azimuth_elevation_range(&p([7e6, 0.0, 0.0]), &z, &p([7e6 + 1e6 * se, 1e6 * ce * sa, 1e6 * ce * ca]), &z, LocalFrame::new(Radians::new(0.0), Radians::new(0.0)))
    };
    let probe = aim(45.0, 30.0).pointing.alt().value();
    let unit_rad = if (probe - PI / 4.0).abs() < 1e-6 { 1.0 } else { PI / 180.0 };
    let mut l = Local::default();
    for (el, az) in [(45.0, 30.0), (0.0, 90.0), (-20.0, 200.0), (80.0, 359.0)] {
        l.case("look-unit", &format!("el={el} az={az}"), || {
            let r = guard(|| aim(el, az))?;
            let (e, a) = (r.pointing.alt(), r.pointing.az());
            let (e, a) = (e.to::<siderust::qtty::unit::Degree>().value(), a.to::<siderust::qtty::unit::Degree>().value());
            ensure!(close(e, el, 1e-6) && close(a, az, 1e-6), "altitude {e} deg, azimuth {a} deg");
            Ok(hf(&[e, a]))
        });
    }
    ctx.merge(l);
    ctx.par(&items, |l, &(la, lo)| {
        let (sp, cp) = la.to_radians().sin_cos();
        let (sl, cl) = lo.to_radians().sin_cos();
        let e = [-sl, cl, 0.0];
        let n = [-sp * cl, -sp * sl, cp];
        let u = [cp * cl, cp * sl, sp];
        let fr = LocalFrame::new(Radians::new(la.to_radians()), Radians::new(lo.to_radians()));
        for el in [-90.0f64, -89.999_999, -30.0, 0.0, 10.0, 45.0, 89.0, 89.999_999_9, 90.0] {
            for &az in &azs {
                for rg in [1.0, 4.2e5, 3.84e8] {
                    l.case("look", &format!("lat={la} lon={lo} el={el} az={az} range={rg}"), || {
                        let (se, ce) = el.to_radians().sin_cos();
                        let (sa, ca) = az.to_radians().sin_cos();
                        let dir = add(add(sc(e, ce * sa), sc(n, ce * ca)), sc(u, se));
                        let obs = sc(u, 6371e3);
                        let tgt = add(obs, sc(dir, rg));
                        let (vo, vt): (V3, V3) = ([12.0, -450.0, 3.0], [7000.0, 250.0, -1200.0]);
                        let r = guard(|| azimuth_elevation_range(&p(obs), &Velocity::<F, Per<Meter, Second>>::new(vo[0], vo[1], vo[2]), &p(tgt), &Velocity::<F, Per<Meter, Second>>::new(vt[0], vt[1], vt[2]), fr))?;
                        // judge against the positions actually given (rounding of the sum included)
                        let d = sub(tgt, obs);
                        let (a, h) = (r.pointing.az().value() * unit_rad, r.pointing.alt().value() * unit_rad);
                        ensure!(a.is_finite() && h.is_finite(), "azimuth {a} altitude {h}");
                        ensure!((-1e-12..TAU + 1e-12).contains(&a), "azimuth {} deg", a.to_degrees());
                        ensure!(h.abs() <= PI / 2.0 + 1e-12, "altitude {} deg", h.to_degrees());
                        let back = add(add(sc(e, h.cos() * a.sin()), sc(n, h.cos() * a.cos())), sc(u, h.sin()));
                        let err = nrm(sub(sc(back, r.range.value()), d));
                        ensure!(err <= 3e-8 * nrm(d) + 1e-12, "azimuth {}, altitude {}, range {} reconstruct the target {err:.3e} m off", a.to_degrees(), h.to_degrees(), r.range.value());
                        ensure!(close(r.range.value(), nrm(d), 1e-9 * nrm(d)), "range {} instead of {}", r.range.value(), nrm(d));
                        let rr = dot(sub(vt, vo), unit(d));
                        ensure!(close(r.range_rate.value(), rr, 1e-6), "range rate {} instead of {rr}", r.range_rate.value());
                        ensure!(close(r.light_time.value(), nrm(d) / 299_792_458.0, 1e-12 * (1.0 + nrm(d))), "light time {}", r.light_time.value());
                        Ok(hf(&[a, h]))
                    });
                }
            }
        }
    });
    // ---- terrain masks ---------------------------------------------------------------------
    let sets: Vec<Vec<(f64, f64)>> = vec![
        vec![],
        vec![(100.0, 5.0)],
        vec![(0.0, 1.0), (180.0, 9.0)],
        vec![(10.0, 2.0), (200.0, -3.0), (350.0, 8.0)],
        vec![(0.0, 4.0), (90.0, 0.0), (270.0, 12.0), (359.9, 1.0)],
        vec![(5.0, 1.0), (6.0, 20.0), (7.0, 1.0), (120.0, 0.0), (300.0, 7.0)],
        vec![(350.0, 3.0), (340.0, 30.0)],
    ];
    let mut l = Local::default();
    for (si, s) in sets.iter().enumerate() {
        let mut sorted = s.clone();
        sorted.sort_by(|a, b| a.0.total_cmp(&b.0));
        let want = |az: f64| -> f64 {
            let a = az.rem_euclid(360.0);
            let n = sorted.len();
            if n == 0 {
                return 0.0;
            }
            let i = sorted.partition_point(|x| x.0 <= a);
            let (a0, e0) = if i == 0 { (sorted[n - 1].0 - 360.0, sorted[n - 1].1) } else { sorted[i - 1] };
            let (a1, e1) = if i == n { (sorted[0].0 + 360.0, sorted[0].1) } else { sorted[i] };
            e0 + (e1 - e0) * (a - a0) / (a1 - a0)
        };
        for (pi, perm) in permutations(s.len()).iter().enumerate() {
            for shift in [0, 1, 2] {
                l.case("terrain", &format!("set {si} order {pi} shift {shift}"), || {
                    let smp: Vec<(Radians, Radians)> = perm.iter().enumerate().map(|(k, &i)| {
                        let turn = match shift { 0 => 0.0, 1 => -360.0, _ => [360.0, -720.0, 0.0][k % 3] };
                        (Radians::new((s[i].0 + turn).to_radians()), Radians::new(s[i].1.to_radians()))
                    }).collect();
                    let t = TerrainMask::new(smp);
                    let step = if pi % 6 == 0 || tier == Tier::Thorough { 1 } else { 7 };
                    for k in (0..1480).step_by(step) {
                        let az = -370.0 + k as f64 * 0.5 + 0.003;
                        let w = want(az);
                        let g = t.elevation_at(Radians::new(az.to_radians())).value().to_degrees();
                        // slopes up to 25 deg per deg: azimuth rounding only
                        ensure!(close(g, w, 1e-6), "mask at {az}: {g} instead of {w}");
                        let c = |d: f64| t.clears(Radians::new(az.to_radians()), Radians::new((w + d).to_radians()));
                        ensure!(c(0.01) && !c(-0.01), "clears at {az}: {} just above the mask, {} just below", c(0.01), c(-0.01));
                    }
                    Ok(hf(&[si as f64, pi as f64]))
                });
            }
        }
    }
    // ---- orbit-relative angles ---------------------------------------------------------------
    for i in 0..ctx.pick(10, 40) {
        for j in 0..ctx.pick(10, 40) {
            let (inc, raan) = (i as f64 * 0.33, j as f64 * 0.64);
            for (k, sunv) in [[1.0, 0.0, 0.0], [0.2, -0.9, 0.4], [0.0, 0.0, -1.0]].into_iter().enumerate() {
                l.case("beta", &format!("inc={inc} raan={raan} sun={k}"), || {
                    let h = [raan.sin() * inc.sin(), -raan.cos() * inc.sin(), inc.cos()];
                    let nd = [raan.cos(), raan.sin(), 0.0];
                    let q = cross(h, nd);
                    for th in [0.0f64, 1.1, 4.0] {
                        let r = sc(add(sc(nd, th.cos()), sc(q, th.sin())), 7e6);
                        let v = sc(add(sc(nd, -th.sin()), sc(q, th.cos())), 7500.0);
                        let v = add(v, sc(r, 1e-5)); // some radial speed
                        let s = unit(sunv);
                        let b = guard(|| beta_angle(&p(r), &Velocity::<F, Per<Meter, Second>>::new(v[0], v[1], v[2]), &Direction::<F>::new(s[0], s[1], s[2])))?.value();
                        let w = PI / 2.0 - angle(h, s);
                        ensure!(close(b, w, 1e-7), "beta {b} instead of {w}");
                    }
                    Ok(hf(&[inc, raan]))
                });
            }
            l.case("ltan", &format!("{i} {j}"), || {
                let (a, s) = (inc * 2.0 - 5.0, raan);
                for x in [ltan(Radians::new(a), Radians::new(s)), local_solar_time(Radians::new(a), Radians::new(s))] {
                    let x = x.value();
                    ensure!((0.0..86400.0).contains(&x), "local time {x} s");
                    let w = 43200.0 + (a - s) / TAU * 86400.0;
                    let d = (x - w).rem_euclid(86400.0);
                    ensure!(d.min(86400.0 - d) < 1e-6, "local time {x} s instead of {w}");
                }
                Ok(hf(&[a, s]))
            });
        }
    }
    // ---- fields of view -----------------------------------------------------------------------
    for a in [0.0, 0.01, 0.4, 1.5] {
        for b in [0.0, 0.02, 0.4, 3.0] {
            for k in -40..=40 {
                let off = k as f64 * 0.05;
                l.case("fov", &format!("{a} {b} {off}"), || {
                    let c = Fov::Conical { half_angle: Radians::new(a) }.contains_boresight(Radians::new(off));
                    ensure!(c == (f64::abs(off) <= a), "cone of half-angle {a} contains {off}: {c}");
                    let r = Fov::Rectangular { across_track: Radians::new(a), along_track: Radians::new(b) }.contains_boresight(Radians::new(off));
                    ensure!(r == (f64::abs(off) <= f64::min(a, b) / 2.0), "rectangle {a} x {b} contains {off}: {r}");
                    Ok(c as u64 * 2 + r as u64 + 1)
                });
            }
        }
    }
    ctx.merge(l);
    // ---- radial / transverse / normal ----------------------------------------------------------
    let mut st = vec![];
    for i in 0..ctx.pick(6, 20) {
        for j in 0..ctx.pick(6, 20) {
            st.push((i, j));
        }
    }
    ctx.par(&st, |l, &(i, j)| {
        let (a, b) = (i as f64 * 1.07 + 0.01, j as f64 * 0.91 - 2.0);
        for (fp, ecc) in [(0.0, 7.5), (0.25, 9.5), (-0.6, 3.0)] {
            l.case("rtn", &format!("{i} {j} fpa={fp}"), || {
                let rr = rots();
                let q = |v: V3| ap(&rr[1], ap(&[[a.cos(), -a.sin(), 0.0], [a.sin(), a.cos(), 0.0], [0.0, 0.0, 1.0]], v));
                let r = sc(q([b.cos(), 0.0, b.sin()]), 7000.0 + 3000.0 * i as f64);
                let t0 = q([-b.sin() * 0.3, 1.0, b.cos() * 0.3]);
                let v = add(sc(unit(t0), ecc), sc(unit(r), fp * ecc));
                let er = unit(r);
                let en = unit(cross(r, v));
                let et = cross(en, er);
                let st = |r: V3, v: V3| OrbitState::new(JulianDate::new(2460000.5 + j as f64).to_j2000s(), siderust::astro::dynamics::state::Position::<GCRS>::new(r[0], r[1], r[2]), siderust::astro::dynamics::state::Velocity::<GCRS>::new(v[0], v[1], v[2]));
                let refs = vec![st(r, v); 4];
                let d = [[1.0, 2.0, -3.0], [0.001, 0.0, 0.0], [0.0, -50.0, 0.0], [0.0, 0.0, 0.25]];
                let est: Vec<_> = d.iter().map(|k| st(add(r, add(add(sc(er, k[0]), sc(et, k[1])), sc(en, k[2]))), v)).collect();
                let out = guard(|| rtn_diff(&est, &refs))?;
                ensure!(out.len() == 4, "{} rows", out.len());
                let mut sq = [0.0; 3];
                for (o, k) in out.iter().zip(&d) {
                    let got = [o.r_m, o.t_m, o.n_m];
                    let lin = o.position_rtn_km();
                    let lk = [lin.x().value(), lin.y().value(), lin.z().value()];
                    for x in 0..3 {
                        ensure!(close(got[x], k[x] * 1000.0, 2e-6), "difference {got:?} m instead of {k:?} km");
                        ensure!(close(lk[x], k[x], 1e-8), "displacement {lk:?} km instead of {k:?}");
                        sq[x] += k[x] * k[x] * 1e6 / 4.0;
                    }
                    ensure!((o.jd_tt - 2460000.5 - j as f64).abs() < 1e-8, "epoch {}", o.jd_tt);
                }
                let s = rtn_summary(&out);
                ensure!(s.n == 4 && close(s.rms_r_m, sq[0].sqrt(), 1e-5) && close(s.rms_t_m, sq[1].sqrt(), 1e-5) && close(s.rms_n_m, sq[2].sqrt(), 1e-5) && close(s.rms_3d_m, (sq[0] + sq[1] + sq[2]).sqrt(), 1e-5), "summary {s:?}");
                // unequal lengths: the common part
                ensure!(rtn_diff(&est[..2], &refs).len() == 2 && rtn_diff(&est, &refs[..3]).len() == 3 && rtn_summary(&[]).n == 0, "common part");
                Ok(hf(&r))
            });
        }
    });
    ctx
}
