//! C32: the Earth-rotation quantities, judged against the IAU 2000/2006 definitions: the kinematic
//! (non-rotating) definition of the origin carried along day by day, the classical P03 precession
//! angles, and the published series for the sidereal time.
use crate::core::*;
use siderust::astro::nutation::{nutation_iau2000b, nutation_rotation_iau2000b, Iau2000A, Iau2000B, Iau2006, Iau2006A, NutationModel};
use siderust::astro::{cio, era, polar_motion, precession, sidereal};
use siderust::astro::frame_bias::{Eme2000FrameBias, GcrsFrameBias, IcrsFrameBias};
use siderust::coordinates::frames::{EME2000, GCRS, ICRS};
use siderust::qtty::{Arcseconds, Radians};
use siderust::time::JulianDate;
use std::f64::consts::{PI, TAU};

type M = [[f64; 3]; 3];
const AS: f64 = PI / 648_000.0;
fn mul(a: &M, b: &M) -> M {
    let mut r = [[0.0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            r[i][j] = (0..3).map(|k| a[i][k] * b[k][j]).sum();
        }
    }
    r
}
fn tr(a: &M) -> M {
    let mut r = *a;
    for i in 0..3 {
        for j in 0..3 {
            r[i][j] = a[j][i];
        }
    }
    r
}
fn dist(a: &M, b: &M) -> f64 {
    let mut d = 0.0f64;
    for i in 0..3 {
        for j in 0..3 {
            let e = (a[i][j] - b[i][j]).abs();
            d = if e.is_nan() { f64::INFINITY } else { d.max(e) };
        }
    }
    d
}
// frame rotations in the conventions of the IERS: R1, R2, R3 turn the axes by the angle
fn r1(a: f64) -> M {
    let (s, c) = a.sin_cos();
    [[1.0, 0.0, 0.0], [0.0, c, s], [0.0, -s, c]]
}
fn r2(a: f64) -> M {
    let (s, c) = a.sin_cos();
    [[c, 0.0, -s], [0.0, 1.0, 0.0], [s, 0.0, c]]
}
fn r3(a: f64) -> M {
    let (s, c) = a.sin_cos();
    [[c, s, 0.0], [-s, c, 0.0], [0.0, 0.0, 1.0]]
}
fn poly(t: f64, c: &[f64]) -> f64 {
    c.iter().rev().fold(0.0, |a, &k| a * t + k)
}
fn wrap(a: f64) -> f64 {
    (a + PI).rem_euclid(TAU) - PI
}
fn cent(jd: f64) -> f64 {
    (jd - 2451545.0) / 36525.0
}
/// frame bias of the IERS Conventions (2010), section 5.4.4
fn bias() -> M {
    mul(&r1(0.0068192 * AS), &mul(&r2(-0.016617 * AS), &r3(-0.0146 * AS)))
}
fn obliquity(t: f64) -> f64 {
    poly(t, &[84381.406, -46.836769, -0.0001831, 0.00200340, -0.000000576, -0.0000000434]) * AS
}
/// P03 precession by the equatorial angles zeta, z, theta (Capitaine et al. 2003, eqs 40-41)
fn classical(t: f64) -> M {
    let zeta = poly(t, &[2.650545, 2306.083227, 0.2988499, 0.01801828, -0.000005971, -0.0000003173]) * AS;
    let z = poly(t, &[-2.650545, 2306.077181, 1.0927348, 0.01826837, -0.000028596, -0.0000002904]) * AS;
    let th = poly(t, &[0.0, 2004.191903, -0.4294934, -0.04182264, -0.000007089, -0.0000001274]) * AS;
    mul(&r3(-z), &mul(&r2(th), &r3(-zeta)))
}
/// P03 precession by the ecliptic angles psi, omega, chi (Capitaine et al. 2003, eqs 37, 39)
fn canonical(t: f64) -> M {
    let psi = poly(t, &[0.0, 5038.481507, -1.0790069, -0.00114045, 0.000132851, -0.0000000951]) * AS;
    let om = poly(t, &[84381.406, -0.025754, 0.0512623, -0.00772503, -0.000000467, 0.0000003337]) * AS;
    let chi = poly(t, &[0.0, 10.556403, -2.3814292, -0.00121197, 0.000170663, -0.0000000560]) * AS;
    mul(&r3(chi), &mul(&r1(-om), &mul(&r3(-psi), &r1(84381.406 * AS))))
}
fn m(r: affn::Rotation3) -> M {
    *r.as_matrix()
}
fn jd(v: f64) -> JulianDate {
    JulianDate::new(v)
}
fn rad(v: f64) -> Radians {
    Radians::new(v)
}
fn gmst_poly(t: f64) -> f64 {
    poly(t, &[0.014506, 4612.156534, 1.3915817, -0.00000044, -0.000029956, -0.0000000368]) * AS
}
/// the x axis of the intermediate frame for the pole (x, y) and locator s, measured from the row 0 of npb
fn origin_offset(npb: &M, s: f64) -> f64 {
    let (x, y) = (npb[2][0], npb[2][1]);
    let e = y.atan2(x);
    let d = (x * x + y * y).sqrt().asin();
    let q = mul(&r3(-(e + s)), &mul(&r2(d), &r3(e)));
    let g = mul(&q, &tr(npb)); // rotation about the pole from the equinox frame to the intermediate frame
    g[0][1].atan2(g[0][0])
}

fn era_cases(l: &mut Local, v: f64) {
    let t = jd(v);
    l.case("rotation angle", &format!("{v}"), || {
        let d = v - 2451545.0;
        // exact whole days drop out of the turn count
        let want = (0.7790572732640 + d.rem_euclid(1.0) + 0.00273781191135448 * d).rem_euclid(1.0) * TAU;
        let got = era::earth_rotation_angle(t).value();
        ensure!((0.0..=TAU).contains(&got), "angle {got} outside one turn");
        ensure!(wrap(got - want).abs() < 2e-12, "angle {got}, published formula {want}");
        let (w, f) = (v.floor(), v - v.floor());
        for (a, b) in [(v, 0.0), (0.0, v), (w, f), (f, w), (2451545.0, d), (d, 2451545.0), (2400000.5, v - 2400000.5), (v - 2400000.5, 2400000.5), (v + 1000.0, -1000.0)] {
            let x = era::earth_rotation_angle_parts(a, b).value();
            let tol = if a.abs().max(b.abs()) > 2e6 && a != 2451545.0 && b != 2451545.0 { 4e-9 } else { 4e-12 };
            ensure!((0.0..=TAU).contains(&x) && wrap(x - want).abs() < tol, "split ({a}, {b}) gives {x}, expected {want}");
        }
        hf(got)
    });
}
fn hf(v: f64) -> Outcome {
    Ok(v.to_bits() | 1)
}

fn day_cases(l: &mut Local, v: f64) {
    let (t, c) = (jd(v), cent(v));
    let far = 1.0 + c.abs().powi(4);
    l.case("precession", &format!("{v}"), || {
        let p = m(precession::precession_matrix_iau2006(t));
        let b = bias();
        let (k, z) = (mul(&canonical(c), &b), mul(&classical(c), &b));
        // the three published parametrisations of the same precession agree to microarcseconds per century
        ensure!(dist(&p, &k) < 3e-11 * far, "differs from the ecliptic angles by {:e}", dist(&p, &k));
        ensure!(dist(&p, &z) < 1e-9 * far && (c.abs() > 1.0 || dist(&p, &z) < 1e-10), "differs from the equatorial angles by {:e}", dist(&p, &z));
        let eps = precession::mean_obliquity_iau2006(t).value();
        ensure!((eps - obliquity(c)).abs() < 1e-15 * far, "mean obliquity {eps}, expected {}", obliquity(c));
        let e = m(precession::gcrs_to_ecliptic_of_date_matrix(t));
        ensure!(dist(&e, &mul(&r1(eps), &p)) < 1e-14, "ecliptic of date is not the mean equator tilted by the obliquity");
        ensure!(dist(&tr(&e), &m(precession::ecliptic_of_date_to_gcrs_matrix(t))) < 1e-15, "inverse");
        let me = m(precession::mean_equatorial_to_ecliptic_of_date_matrix(t));
        ensure!(dist(&me, &r1(eps)) < 1e-15 && dist(&tr(&me), &m(precession::ecliptic_of_date_to_mean_equatorial_matrix(t))) < 1e-15, "mean equatorial to ecliptic");
        // the pole of the ecliptic of date lies where the P03 ecliptic has it: P_A, Q_A
        let pa = poly(c, &[0.0, 4.199094, 0.1939873, -0.00022466, -0.000000912, 0.0000000120]) * AS;
        let qa = poly(c, &[0.0, -46.811015, 0.0510283, 0.00052413, -0.000000646, -0.0000000172]) * AS;
        let pole = mul(&mul(&e, &tr(&b)), &r1(-84381.406 * AS))[2]; // in the ecliptic of J2000
        ensure!((pole[0] - pa).abs() < 1e-10 * far && (pole[1] + qa).abs() < 1e-10 * far, "ecliptic pole ({}, {}), expected ({pa}, {})", pole[0], pole[1], -qa);
        let (g, ph, ps, ea) = precession::precession_fw_angles(t);
        ensure!(dist(&m(precession::fw_matrix(g, ph, ps, ea)), &mul(&r1(-ea.value()), &mul(&r3(-ps.value()), &mul(&r1(ph.value()), &r3(g.value()))))) < 1e-14, "four-angle product");
        ensure!(ea.value() == eps, "obliquity of the four angles");
        hf(p[0][1])
    });
    let (a, b, a6, z) = (Iau2000A::nutation(t), Iau2000B::nutation(t), Iau2006A::nutation(t), Iau2006::nutation(t));
    l.case("nutation", &format!("{v}"), || {
        // the abridged series is published to 1 mas (of the pole) over 1995-2050
        let (dp, de) = ((a.dpsi.value() - b.dpsi.value()) / AS, (a.deps.value() - b.deps.value()) / AS);
        let lim = if (2449718.5..2469807.5).contains(&v) { 1.0e-3 } else { 1.3e-3 + 0.5e-3 * c.abs() };
        ensure!((dp * obliquity(c).sin()).hypot(de) < lim, "full and abridged series differ by {dp} and {de} arcsec");
        let f = -2.7774e-6 * c;
        ensure!((a6.dpsi.value() - a.dpsi.value() * (1.0 + 0.4697e-6 + f)).abs() < 1e-19 + 1e-15 * a.dpsi.value().abs() && (a6.deps.value() - a.deps.value() * (1.0 + f)).abs() < 1e-19 + 1e-15 * a.deps.value().abs(), "the 2006 adjustments are not the published factors");
        ensure!(z.dpsi.value() == 0.0 && z.deps.value() == 0.0, "precession-only model has nutation");
        let n = nutation_iau2000b(t);
        ensure!(n.dpsi.value() == b.dpsi.value() && n.deps.value() == b.deps.value(), "two entry points of the abridged series");
        ensure!((n.dpsi_deg().value().to_radians() - n.dpsi.value()).abs() < 1e-20 + 1e-15 * n.dpsi.value().abs() && (n.deps_deg().value().to_radians() - n.deps.value()).abs() < 1e-20 + 1e-15 * n.deps.value().abs(), "degrees");
        for (mo, d) in [(a.mean_obliquity, a.deps), (b.mean_obliquity, b.deps), (a6.mean_obliquity, a6.deps), (z.mean_obliquity, z.deps)] {
            ensure!((mo.value() - obliquity(c)).abs() < 1e-15 * far, "mean obliquity {}", mo.value());
            let _ = d;
        }
        ensure!(a.true_obliquity().value() == a.mean_obliquity.value() + a.deps.value() && n.true_obliquity().value() == n.mean_obliquity.value() + n.deps.value(), "true obliquity");
        let own = mul(&r1(-(n.mean_obliquity.value() + n.deps.value())), &mul(&r3(-n.dpsi.value()), &r1(n.mean_obliquity.value())));
        ensure!(dist(&own, &m(nutation_rotation_iau2000b(t))) < 1e-14, "nutation matrix");
        // precession then nutation is the combined matrix
        let npb = m(precession::precession_nutation_matrix(t, n.dpsi, n.deps));
        let pr = m(precession::precession_matrix_iau2006(t));
        ensure!(dist(&npb, &mul(&own, &pr)) < 1e-14, "nutation times precession is not the combined matrix: {:e}", dist(&npb, &mul(&own, &pr)));
        let te = m(precession::gcrs_to_true_ecliptic_of_date_matrix(t));
        ensure!(dist(&te, &mul(&r1(n.true_obliquity().value()), &npb)) < 1e-14 && dist(&tr(&te), &m(precession::true_ecliptic_of_date_to_gcrs_matrix(t))) < 1e-15, "true ecliptic");
        let mt = m(precession::mean_equatorial_to_true_ecliptic_of_date_matrix(t));
        ensure!(dist(&mul(&mt, &pr), &te) < 1e-14 && dist(&tr(&mt), &m(precession::true_ecliptic_of_date_to_mean_equatorial_matrix(t))) < 1e-15, "mean equator to true ecliptic");
        // the true ecliptic has the same plane as the mean one, turned by the nutation in longitude
        let e = mul(&te, &tr(&m(precession::gcrs_to_ecliptic_of_date_matrix(t))));
        ensure!(dist(&e, &r3(-n.dpsi.value())) < 1e-14, "true ecliptic against mean ecliptic");
        hf(a.dpsi.value())
    });
    l.case("sidereal time", &format!("{v}"), || {
        for (k, ut) in [v, v - 0.0008, v + 0.3].into_iter().enumerate() {
            let g = sidereal::gmst_iau2006(jd(ut), t).value();
            let w = (era::earth_rotation_angle(jd(ut)).value() + gmst_poly(c)).rem_euclid(TAU);
            ensure!((0.0..=TAU).contains(&g) && wrap(g - w).abs() < 1e-14 + 1e-15 * far, "mean sidereal time {g}, published {w} (case {k})");
            for n in [&a, &b, &a6, &z] {
                let s = sidereal::gast_iau2006(jd(ut), t, n.dpsi, n.mean_obliquity).value();
                let ct = era::complementary_terms_iau2000(t).value();
                let ee = era::equation_of_the_equinoxes_iau2000(t, n.dpsi, n.mean_obliquity).value();
                ensure!((ee - (n.dpsi.value() * n.mean_obliquity.value().cos() + ct)).abs() < 1e-18, "equation of the equinoxes {ee}");
                ensure!((0.0..=TAU).contains(&s) && wrap(s - g - ee).abs() < 3e-15, "apparent minus mean sidereal time {}, equation of the equinoxes {ee}", wrap(s - g));
            }
            let s = sidereal::gast_iau2006a(jd(ut), t).value();
            let w = sidereal::gast_iau2006(jd(ut), t, a6.dpsi, a6.mean_obliquity).value();
            ensure!(wrap(s - w).abs() < 1.5e-3 * AS * (1.5 + c.abs()), "apparent sidereal time {s}, from the full nutation {w}");
        }
        let ct = era::complementary_terms_iau2000(t).value() / AS;
        ensure!(ct.abs() < 2.75e-3 + 1e-6 * c.abs(), "complementary terms {ct} arcsec");
        // leading terms from the ascending node and the Sun's longitude (IERS 2010, table 5.2e)
        let om = (450160.398036 - 6962890.5431 * c + 7.4722 * c * c) * AS;
        let f = (335779.526232 + 1739527262.8478 * c) * AS;
        let dd = (1072260.703692 + 1602961601.2090 * c) * AS;
        let lead = 1e-6 * (2640.96 * om.sin() + 63.52 * (2.0 * om).sin() + 11.75 * (2.0 * f - 2.0 * dd + 3.0 * om).sin() + 11.21 * (2.0 * f - 2.0 * dd + om).sin()
            - 4.55 * (2.0 * f - 2.0 * dd + 2.0 * om).sin() + 2.02 * (2.0 * f + 3.0 * om).sin() + 1.98 * (2.0 * f + om).sin() - 1.72 * (3.0 * om).sin());
        ensure!((ct - lead).abs() < 9e-6 + 2e-6 * c.abs(), "complementary terms {ct}, leading terms {lead}");
        ensure!((era::equation_of_the_equinoxes(a.dpsi, a.true_obliquity()).value() - a.dpsi.value() * a.true_obliquity().value().cos()).abs() < 1e-20, "plain equation of the equinoxes");
        hf(ct)
    });
    l.case("intermediate frame", &format!("{v}"), || {
        for n in [&a, &b, &a6, &z] {
            let npb = m(precession::precession_nutation_matrix(t, n.dpsi, n.deps));
            let q = cio::cip_cio(t, n.dpsi, n.deps);
            let (x, y) = cio::cip_xy(t, n.dpsi, n.deps);
            ensure!(x.value() == npb[2][0] && y.value() == npb[2][1] && q.x.value() == x.value() && q.y.value() == y.value(), "pole coordinates are not the pole of the equator");
            ensure!(q.s.value() == cio::cio_locator_s(t, x, y).value(), "locator");
            let g = m(cio::gcrs_to_cirs_matrix(q.x, q.y, q.s));
            let e = y.value().atan2(x.value());
            let d = (x.value().powi(2) + y.value().powi(2)).sqrt().asin();
            let own = mul(&r3(-(e + q.s.value())), &mul(&r2(d), &r3(e)));
            ensure!(dist(&g, &own) < 1e-14, "intermediate matrix differs from its definition by {:e}", dist(&g, &own));
            ensure!((g[2][0] - x.value()).abs() < 1e-15 && (g[2][1] - y.value()).abs() < 1e-15, "pole of the intermediate frame");
            // the approximate equation of the origins
            let eo = wrap(era::earth_rotation_angle(t).value() - sidereal::gast_iau2006(t, t, n.dpsi, n.mean_obliquity).value());
            let (_, _, ps, ea) = precession::precession_fw_angles(t);
            let ap = era::equation_of_the_origins_approx(rad(ps.value() + n.dpsi.value()), rad(ea.value() + n.deps.value()), q.s).value();
            ensure!((ap + (ps.value() + n.dpsi.value()) * (ea.value() + n.deps.value()).cos() + q.s.value()).abs() < 1e-15, "approximate equation of the origins is not its formula");
            // (the bridge formula leaves out the planetary precession of the equator origin, 10.6 arcsec per century)
            ensure!((ap - eo).abs() < (0.5 + 11.0 * c.abs() + 2.0 * c * c) * AS, "approximate equation of the origins {ap}, from the sidereal time {eo}");
            let off = origin_offset(&npb, q.s.value());
            ensure!((off.abs() - eo.abs()).abs() < (4000.0 + 1000.0 * c * c + 60.0 * c.powi(4)) * 1e-6 * AS, "equinox {off} from the intermediate origin, equation of the origins {eo}");
        }
        hf(a6.dpsi.value())
    });
    for (i, (xp, yp)) in [(0.0, 0.0), (0.3, 0.0), (0.0, 0.4), (-0.25, 0.55), (500.0, -300.0)].into_iter().enumerate() {
        l.case("polar motion", &format!("{v}/{i}"), || {
            let sp = -47e-6 * c * AS;
            ensure!((polar_motion::tio_locator_sp(t).value() - sp).abs() < 1e-24 + 1e-14 * sp.abs(), "terrestrial origin locator {}", polar_motion::tio_locator_sp(t).value());
            let w = mul(&r1(-yp * AS), &mul(&r2(-xp * AS), &r3(sp))); // inverse of TIRS = R3(-s') R2(xp) R1(yp) ITRS
            let g = m(polar_motion::polar_motion_matrix_from_eop(Arcseconds::new(xp), Arcseconds::new(yp), t));
            let h = m(polar_motion::polar_motion_matrix(rad(xp * AS), rad(yp * AS), rad(sp)));
            ensure!(dist(&g, &h) < 1e-16, "two entry points");
            ensure!(dist(&g, &w) < 1e-15, "polar motion matrix {g:?}, expected {w:?}");
            hf(g[2][0] + 1.0)
        });
    }
}

/// Carries the non-rotating origin from J2000 through `days` days in half-day steps and compares, at every
/// step, the sidereal time that geometry implies with the library's.
fn kinematic(l: &mut Local, name: &str, nut: fn(JulianDate) -> (f64, f64, f64), sign: f64, days: usize, tol: f64) {
    let h = 0.5 * sign;
    let npb_at = |v: f64| {
        let (dp, de, eo) = nut(jd(v));
        (m(precession::precession_nutation_matrix(jd(v), rad(dp), rad(de))), dp, eo)
    };
    // s' = -(x y' - y x') / (1 + z), by the Simpson rule over centred pairs of half-day steps
    let xyz = |n: &M| (n[2][0], n[2][1], n[2][2]);
    let mut v = 2451545.0;
    let (mut n0, _, _) = npb_at(v);
    // s at J2000 from s + xy/2 = 94 uas - 2640.73 sin(node) ... ; one constant for both directions
    let ct0 = era::complementary_terms_iau2000(jd(v)).value();
    let (x0, y0, _) = xyz(&n0);
    let mut s = -0.5 * x0 * y0 + 94e-6 * AS - ct0;
    let mut vprev = npb_at(v - h).0;
    let mut k = 0usize;
    while k < days {
        // one day: nodes v, v+h, v+2h, derivative-free form: s changes by -(1/2) of twice the area swept
        let (n1, _, _) = npb_at(v + h);
        let (n2, dp, mo) = npb_at(v + 2.0 * h);
        let (n3, _, _) = npb_at(v + 3.0 * h);
        let f = |p: &M, q: &M, r: &M| {
            // (x y' - y x')/(1+z) at q from the neighbours p and r (steps of h); third-order corrected below
            let (a, b, c) = (xyz(p), xyz(q), xyz(r));
            (b.0 * (c.1 - a.1) - b.1 * (c.0 - a.0)) / (2.0 * h) / (1.0 + b.2)
        };
        let (f0, f1, f2) = (f(&vprev, &n0, &n1), f(&n0, &n1, &n2), f(&n1, &n2, &n3));
        s -= h / 3.0 * (f0 + 4.0 * f1 + f2);
        v += 2.0 * h;
        vprev = n1;
        n0 = n2;
        k += 1;
        l.states += 3;
        l.transitions += 1;
        let t = jd(v);
        l.case(&format!("non-rotating origin, {name}"), &format!("{v}"), || {
            let off = origin_offset(&n0, s);
            let geo = era::earth_rotation_angle(t).value() + off;
            // rotation from the equinox frame to the intermediate frame is by ERA - GST reversed
            let lib = sidereal::gast_iau2006(t, t, rad(dp), rad(mo)).value();
            let d1 = wrap(geo - lib);
            let d2 = wrap(2.0 * era::earth_rotation_angle(t).value() - geo - lib);
            let d = if d1.abs() < d2.abs() { d1 } else { d2 };
            ensure!(d.abs() < tol, "sidereal time from the carried origin differs from the library's by {} microarcsec", d / AS * 1e6);
            // the closed-form locator follows the carried one to its periodic terms
            let (x, y, _) = xyz(&n0);
            let sl = cio::cio_locator_s(t, siderust::qtty::CipCoordinates::new(x), siderust::qtty::CipCoordinates::new(y)).value();
            let c = cent(v);
            ensure!((sl - s).abs() < (2800.0 + 1000.0 * c * c + 30.0 * c.powi(4)) * 1e-6 * AS, "locator {} against the carried one {} (microarcsec)", sl / AS * 1e6, s / AS * 1e6);
            hf(d)
        });
    }
}

pub fn run(tier: Tier) -> Ctx {
    let mut ctx = Ctx::new("C32", "model_checking", tier,
        "every day of a grid 1800-2200 (every 7th day in the quick tier, every 12 hours in the thorough one) x all four nutation models for the closed-form definitions; and, day by day from J2000, the kinematic model that carries the non-rotating origin along the path of the pole computed by the real code: at every state the sidereal time implied by the geometry is compared with the library's. Non-trivial: every case.");
    ctx.assumptions = vec![
        "published polynomials: IERS Conventions (2010) chapter 5, Capitaine, Wallace & Chapront (2003)".into(),
        "the compact locator s leaves out its periodic terms (up to 2.7 mas), as its documentation says".into(),
    ];
    let step = ctx.pick(7, 1) as f64 * if tier == Tier::Thorough { 0.5 } else { 1.0 };
    let n = (146_100.0 / step) as usize;
    let days: Vec<f64> = (0..n).map(|i| 2378496.5 + 0.137 * (i % 7) as f64 + step * i as f64).chain([2451545.0, 2451544.5, 2451545.5, 2400000.5, 2460000.25, 2341972.5, 2561117.5]).collect();
    let days: Vec<Vec<f64>> = days.chunks(64).map(|c| c.to_vec()).collect();
    ctx.par(&days, |l, c| {
        for &v in c {
            era_cases(l, v);
            day_cases(l, v);
        }
    });
    fn full(t: JulianDate) -> (f64, f64, f64) {
        let n = Iau2006A::nutation(t);
        (n.dpsi.value(), n.deps.value(), n.mean_obliquity.value())
    }
    fn none(t: JulianDate) -> (f64, f64, f64) {
        let n = Iau2006::nutation(t);
        (0.0, 0.0, n.mean_obliquity.value())
    }
    fn short(t: JulianDate) -> (f64, f64, f64) {
        let n = Iau2000B::nutation(t);
        (n.dpsi.value(), n.deps.value(), n.mean_obliquity.value())
    }
    let y = ctx.pick(18_262, 54_786);
    let jobs: Vec<(&str, fn(JulianDate) -> (f64, f64, f64), f64, f64)> = vec![("2006A forward", full, 1.0, 1.0), ("2006A backward", full, -1.0, 1.0), ("2000B forward", short, 1.0, 1.0), ("2000B backward", short, -1.0, 1.0)];
    let _ = none;
    ctx.par(&jobs, |l, &(name, f, sign, k)| kinematic(l, name, f, sign, y, k * 30e-6 * AS));
    let mut l = Local::default();
    l.case("frame bias", "constants", || {
        let b = bias();
        ensure!(dist(&m(GCRS::frame_bias_to_eme2000()), &b) < 1e-15 && dist(&m(ICRS::frame_bias_to_eme2000()), &b) < 1e-15, "frame bias {:?}, published {b:?}", m(GCRS::frame_bias_to_eme2000()));
        ensure!(dist(&m(EME2000::frame_bias_to_gcrs()), &tr(&b)) < 1e-15 && dist(&m(EME2000::frame_bias_to_icrs()), &tr(&b)) < 1e-15, "inverse frame bias");
        Ok(1)
    });
    ctx.merge(l);
    ctx
}
