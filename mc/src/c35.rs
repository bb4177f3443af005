//! C35: solar-system, star and observatory constants, body builders, catalogue stars in motion, mission registries.
use crate::core::*;
use siderust::astro::orbit::KeplerianOrbit;
use siderust::astro::proper_motion::{ProperMotion, ProperMotionError};
use siderust::astro::IauRotationParams;
use siderust::bodies::asteroid::{Asteroid, AsteroidClass, APOPHIS, ASTEROID_PRESETS, BENNU, CERES_AST};
use siderust::bodies::comet::{Comet, OrbitFrame, COMET_PRESETS, ENCKE, HALE_BOPP, HALLEY};
use siderust::bodies::planets::{OrbitExt, Planet, PlanetBuilder, PlanetBuilderError};
use siderust::bodies::*;
use siderust::catalogs::observatories as obs;
use siderust::coordinates::frames::ICRS;
use siderust::coordinates::spherical::{direction, position};
use siderust::mission::context::MissionContext;
use siderust::mission::geometry::{Fov, Instrument, LocalFrame, TerrainMask};
use siderust::mission::site::Location;
use siderust::qtty::*;
use siderust::targets::{CoordinateWithPM, Trackable};
use siderust::time::JulianDate;
use std::collections::BTreeMap;

type V = [f64; 3];
type Ly = siderust::qtty::unit::LightYear;
type Maspy = Per<siderust::qtty::unit::MilliArcsecond, siderust::qtty::unit::Year>;
const J2000: f64 = 2451545.0;
const DEG: f64 = std::f64::consts::PI / 180.0;
const AUKM: f64 = 149_597_870.7;
fn dot(a: V, b: V) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
fn norm(a: V) -> f64 {
    dot(a, a).sqrt()
}
fn sub(a: V, b: V) -> V {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
fn angle(a: V, b: V) -> f64 {
    (dot(a, b) / norm(a) / norm(b)).clamp(-1.0, 1.0).acos()
}
fn sph(ra: f64, dec: f64) -> V {
    let ((sa, ca), (sd, cd)) = ((ra * DEG).sin_cos(), (dec * DEG).sin_cos());
    [cd * ca, cd * sa, sd]
}
fn jd(v: f64) -> JulianDate {
    JulianDate::new(v)
}
macro_rules! v3 {
    ($p:expr) => {{
        let p = $p;
        [p.x().value(), p.y().value(), p.z().value()]
    }};
}
/// textbook two-body position, ecliptic, AU (unit solar mass parameter k^2)
fn textbook(o: &KeplerianOrbit, t: f64) -> V {
    let (a, e) = (o.shape().semi_major_axis().value(), o.shape().eccentricity());
    let or = o.orientation();
    let (i, n, w) = (or.inclination().value() * DEG, or.longitude_of_ascending_node().value() * DEG, or.argument_of_periapsis().value() * DEG);
    let m = (o.mean_anomaly_at_epoch.value() * DEG + 0.017_202_098_95 / a.powf(1.5) * (t - o.epoch.raw().value())).rem_euclid(std::f64::consts::TAU);
    let (mut lo, mut hi) = (0.0, std::f64::consts::TAU);
    for _ in 0..80 {
        let mid = 0.5 * (lo + hi);
        if mid - e * f64::sin(mid) < m { lo = mid } else { hi = mid }
    }
    let ea: f64 = 0.5 * (lo + hi);
    let (x, y) = (a * (ea.cos() - e), a * (1.0 - e * e).sqrt() * ea.sin());
    let r = |x: f64, y: f64, q: f64| (x * q.cos() - y * q.sin(), x * q.sin() + y * q.cos());
    let (x, y) = r(x, y, w);
    let (y, z) = (y * i.cos(), y * i.sin());
    let (x, y) = r(x, y, n);
    [x, y, z]
}

fn planets(ctx: &Ctx) {
    type F = fn(JulianDate) -> V;
    // body, constant, analytical theory, allowed angle and relative distance over the decades
    let ps: Vec<(&str, &Planet, F, f64, f64)> = vec![
        ("Mercury", &MERCURY, |t| v3!(Mercury::vsop87a(t)), 0.002, 1e-3),
        ("Venus", &VENUS, |t| v3!(Venus::vsop87a(t)), 0.002, 1e-3),
        ("Earth", &EARTH, |t| v3!(Earth::vsop87a(t)), 0.002, 1e-3),
        ("Mars", &MARS, |t| v3!(Mars::vsop87a(t)), 0.004, 1e-3),
        ("Jupiter", &JUPITER, |t| v3!(Jupiter::vsop87a(t)), 0.012, 6e-3),
        ("Saturn", &SATURN, |t| v3!(Saturn::vsop87a(t)), 0.025, 1.2e-2),
        ("Uranus", &URANUS, |t| v3!(Uranus::vsop87a(t)), 0.012, 1.2e-2),
        ("Neptune", &NEPTUNE, |t| v3!(Neptune::vsop87a(t)), 0.012, 1.2e-2),
    ];
    let (span, step) = ctx.pick((25, 97.0), (40, 13.0));
    ctx.par(&ps, |l, &(name, p, f, ang, rad)| {
        for k in 0..(2.0 * span as f64 * 365.25 / step) as i64 {
            let t = J2000 - span as f64 * 365.25 + k as f64 * step;
            l.case("planet constant against the planetary theory", &format!("{name} {t}"), || {
                let want = f(jd(t));
                let got = v3!(guard(|| p.orbit.kepler_position(jd(t)))?);
                let tb = textbook(&p.orbit, t);
                ensure!(norm(sub(got, tb)) < 2e-6 * norm(tb), "two-body position {got:?}, by hand {tb:?}");
                ensure!(angle(got, want) < ang, "{:.5} rad from the real planet", angle(got, want));
                ensure!((norm(got) / norm(want) - 1.0).abs() < rad, "distance {} instead of {}", norm(got), norm(want));
                Ok(hf(&got) | 1)
            });
        }
        l.case("order of the planets", name, || {
            let i = ps.iter().position(|q| q.0 == name).unwrap();
            ensure!(PLANETS.len() == 8 && std::ptr::eq(SOLAR_SYSTEM.planets, PLANETS), "list of planets");
            ensure!(PLANETS[i].mass == p.mass && PLANETS[i].radius == p.radius && PLANETS[i].orbit.shape().semi_major_axis() == p.orbit.shape().semi_major_axis(), "entry {i} is not {name}");
            let per = guard(|| p.orbit.period())?.value() / 86400.0;
            // sidereal periods, days
            let w = [87.969, 224.701, 365.256, 686.980, 4332.6, 10759.2, 30688.5, 60182.0][i];
            ensure!((per / w - 1.0).abs() < 4e-3, "period {per} d, known {w} d");
            // mean density kg/m3 (NASA fact sheets, volumetric mean radius)
            let d = p.mass.value() / (4.0 / 3.0 * std::f64::consts::PI * (p.radius.value() * 1e3).powi(3));
            let wd = [5429.0, 5243.0, 5513.0, 3934.0, 1326.0, 687.0, 1270.0, 1638.0][i];
            ensure!((d / wd - 1.0).abs() < 6e-3, "density {d}, known {wd}");
            let al = p.albedo.map(|a| a.value());
            ensure!(al == Some([0.068, 0.76, 0.306, 0.25, 0.503, 0.342, 0.3, 0.29][i]), "albedo {al:?}");
            Ok(hf(&[per, d]) | 1)
        });
    });
}

fn constants(l: &mut Local) {
    l.case("Sun constant", "direction at J2000", || {
        let sun = SUN;
        let s = sun.coordinate.get_position();
        let e = v3!(Earth::vsop87a(jd(J2000)));
        let eps = 23.439_291_1 * DEG;
        let q = [-e[0], -e[1] * eps.cos() + e[2] * eps.sin(), -e[1] * eps.sin() - e[2] * eps.cos()];
        let d = angle(q, sph(s.ra().value(), s.dec().value())) / DEG;
        ensure!(d < 0.12, "{d} deg from the Sun's place at J2000");
        ensure!((s.distance.to::<siderust::qtty::unit::AstronomicalUnit>().value() - 1.0).abs() < 1e-4 && s.distance == SUN.distance, "distance {}", s.distance);
        ensure!(SUN.mass.value() == 1.0 && SUN.luminosity.value() == 1.0 && SUN.radius.value() == 1.0, "{SUN:?}");
        ensure!(SUN.name == "Sun" && SOLAR_SYSTEM.sun.name == "Sun", "name");
        Ok(hf(&q) | 1)
    });
    // name, ra, dec (Hipparcos/SIMBAD, J2000), distance ly
    let stars: [(&Star, &str, f64, f64, f64); 10] = [
        (&VEGA, "Vega", 279.234_734_8, 38.783_688_9, 25.04),
        (&POLARIS, "Polaris", 37.954_560_7, 89.264_109_0, 433.0),
        (&SIRIUS, "Sirius", 101.287_155_3, -16.716_115_9, 8.6),
        (&CANOPUS, "Canopus", 95.987_957_8, -52.695_661_4, 310.0),
        (&ARCTURUS, "Arcturus", 213.915_300_3, 19.182_409_2, 36.7),
        (&RIGEL, "Rigel", 78.634_467_1, -8.201_638_4, 860.0),
        (&BETELGEUSE, "Betelgeuse", 88.792_939, 7.407_064, 548.0),
        (&PROCYON, "Procyon", 114.825_497_9, 5.224_987_6, 11.46),
        (&ALDEBARAN, "Aldebaran", 68.980_162_8, 16.509_302_4, 65.3),
        (&ALTAIR, "Altair", 297.695_827_3, 8.868_321_2, 16.73),
    ];
    for (s, n, ra, dec, d) in stars {
        l.case("bright star constant", n, || {
            let p = s.coordinate.get_position();
            let a = angle(sph(p.ra().value(), p.dec().value()), sph(ra, dec)) / DEG * 3600.0;
            ensure!(a < 1.0, "{a}\" from its J2000 place");
            ensure!((s.distance.value() / d - 1.0).abs() < 0.01 && p.distance == s.distance, "distance {} and {}", s.distance, p.distance);
            ensure!(s.name == n && s.parallax.is_none() && s.radial_velocity.is_none() && !s.has_full_space_motion(), "{s:?}");
            // radius, luminosity and temperature of a real star hang together within what the published estimates scatter
            let t = 5772.0 * (s.luminosity.value() / s.radius.value().powi(2)).powf(0.25);
            ensure!(t > 2200.0 && t < 13_500.0 && s.mass.value() > 0.9 && s.mass.value() < 25.0, "temperature {t} mass {}", s.mass);
            Ok(hf(&[a, t]) | 1)
        });
    }
    // satellites: the parent's mass, the moon's period in days, retrograde
    let gm = 6.674_30e-11;
    let moons: [(&Satellite, &str, &Planet, f64, f64); 7] = [
        (&MOON, "Moon", &EARTH, 27.321_66, 3344.0),
        (&IO, "Io", &JUPITER, 1.769_138, 3528.0),
        (&EUROPA, "Europa", &JUPITER, 3.551_181, 3013.0),
        (&GANYMEDE, "Ganymede", &JUPITER, 7.154_553, 1936.0),
        (&CALLISTO, "Callisto", &JUPITER, 16.689_017, 1834.0),
        (&TITAN, "Titan", &SATURN, 15.945_421, 1880.0),
        (&TRITON, "Triton", &NEPTUNE, 5.876_854, 2061.0),
    ];
    for (i, (m, n, p, per, dens)) in moons.iter().enumerate() {
        l.case("moon constant", n, || {
            let mu = gm * (p.mass.value() + m.mass.value());
            let a = (mu * (per * 86400.0 / std::f64::consts::TAU).powi(2)).cbrt() / (AUKM * 1e3);
            let got = m.orbit.shape().semi_major_axis().value();
            ensure!((got / a - 1.0).abs() < 3e-3, "semi-major axis {got} AU, by its period {a} AU");
            Ok(hf(&[got]) | 1)
        });
        l.case("moon list", n, || {
            ensure!(MAJOR_MOONS.len() == 7 && MAJOR_MOONS[i].name == *n && m.name == *n && std::ptr::eq(SOLAR_SYSTEM.moons, MAJOR_MOONS), "entry {i} is {}", MAJOR_MOONS[i].name);
            ensure!(MAJOR_MOONS[i].mass == m.mass && m.albedo.is_some_and(|a| a.value() > 0.0 && a.value() < 1.0), "{:?}", m.albedo);
            let d = m.mass.value() / (4.0 / 3.0 * std::f64::consts::PI * (m.radius.value() * 1e3).powi(3));
            ensure!((d / dens - 1.0).abs() < 6e-3, "density {d}, known {dens}");
            ensure!((m.orbit.orientation().inclination().value() > 90.0) == (*n == "Triton"), "sense of revolution");
            Ok(hf(&[d]) | 1)
        });
    }
    // dwarf planets: period in years, mass in kg
    let dw: [(&Planet, &str, f64, f64); 5] = [(&PLUTO, "Pluto", 247.94, 1.303e22), (&CERES, "Ceres", 4.604, 9.39e20), (&HAUMEA, "Haumea", 284.0, 4.006e21), (&MAKEMAKE, "Makemake", 309.0, 3.1e21), (&ERIS, "Eris", 559.0, 1.66e22)];
    for (i, (p, n, y, m)) in dw.iter().enumerate() {
        l.case("dwarf planet", n, || {
            ensure!(DWARF_PLANETS.len() == 5 && DWARF_PLANETS[i].mass == p.mass && std::ptr::eq(SOLAR_SYSTEM.dwarf_planets, DWARF_PLANETS), "entry {i}");
            let per = p.orbit.period().value() / 86400.0 / 365.25;
            ensure!((per / y - 1.0).abs() < 6e-3 && (p.mass.value() / m - 1.0).abs() < 1e-3, "period {per} yr mass {}", p.mass);
            Ok(hf(&[per]) | 1)
        });
    }
    l.case("small bodies", "Pluto 1930 and 1989", || {
        // perihelion 1989-09-05 at 29.66 AU
        let r = norm(v3!(PLUTO.orbit.kepler_position(jd(2447774.5))));
        ensure!((r - 29.66).abs() < 0.05, "Pluto's perihelion distance {r}");
        let q = v3!(PLUTO.orbit.kepler_position(jd(2447774.5)));
        let lon = q[1].atan2(q[0]) / DEG;
        ensure!((lon.rem_euclid(360.0) - 223.5).abs() < 2.0, "Pluto at longitude {lon}");
        Ok(1)
    });
    // perihelion passages (JD, distance, tolerance in days)
    let per: [(&str, &KeplerianOrbit, f64, f64, f64); 7] = [
        ("1P/Halley 1986", &HALLEY.orbit, 2446470.96, 0.5871, 8.0),
        ("2P/Encke 2000", &ENCKE.orbit, 2451797.2, 0.3397, 4.0),
        ("2P/Encke 1997", &ENCKE.orbit, 2450592.1, 0.3314, 4.0),
        ("Hale-Bopp 1997", &HALE_BOPP.orbit, 2450539.6, 0.9141, 12.0),
        ("Bennu 2010", &BENNU.orbit, 2455439.1, 0.8969, 4.0),
        ("Ceres 2018", &CERES.orbit, 2458236.9, 2.5570, 30.0),
        ("(1) Ceres 2018", &CERES_AST.orbit, 2458236.9, 2.5570, 30.0),
    ];
    for (n, o, t, q, tol) in per {
        l.case("perihelion passage", n, || {
            let r = |t: f64| norm(v3!(o.kepler_position(jd(t))));
            let best = (-300..=300).map(|k| t + k as f64).min_by(|a, b| r(*a).total_cmp(&r(*b))).unwrap();
            ensure!((best - t).abs() <= tol, "closest to the Sun {} d away from the observed passage", best - t);
            ensure!((r(best) / q - 1.0).abs() < 0.04, "perihelion distance {} instead of {q}", r(best));
            Ok(hf(&[best]) | 1)
        });
    }
    for (c, n, y, f) in [(&HALLEY, "1P/Halley", 75.3, OrbitFrame::Heliocentric), (&ENCKE, "2P/Encke", 3.30, OrbitFrame::Heliocentric), (&HALE_BOPP, "C/1995 O1", 2530.0, OrbitFrame::Barycentric)] {
        l.case("comet preset", n, || {
            ensure!(c.name.starts_with(n) && c.reference == f && COMET_PRESETS.len() == 3 && COMET_PRESETS.iter().any(|d| d.name == c.name), "{c:?}");
            let a = c.orbit.shape().semi_major_axis().value();
            ensure!((c.period_years().value() / y - 1.0).abs() < 5e-3 && (c.period_years().value() / a.powf(1.5) - 1.0).abs() < 1e-14, "period {} yr, known {y}", c.period_years());
            ensure!((c.orbit.period().value() / (c.period_years().value() * 365.256_898_326 * 86400.0) - 1.0).abs() < 1e-12, "two periods");
            Ok(hf(&[a]) | 1)
        });
    }
    for (i, (a, n, class, y)) in [(&CERES_AST, "(1) Ceres", AsteroidClass::DwarfPlanet, 4.604), (&BENNU, "(101955) Bennu", AsteroidClass::NearEarth, 1.1955), (&APOPHIS, "(99942) Apophis", AsteroidClass::NearEarth, 0.886)].into_iter().enumerate() {
        l.case("asteroid preset", n, || {
            ensure!(a.designation == n && a.class == class && ASTEROID_PRESETS.len() == 3 && ASTEROID_PRESETS[i].designation == n, "{a:?}");
            ensure!((a.orbit.period().value() / 86400.0 / 365.25 / y - 1.0).abs() < 2e-3 && a.albedo.is_some(), "period {}", a.orbit.period());
            Ok(1)
        });
    }
    // orbit planes and perihelia from the minor-planet tables: inclination, node, argument of perihelion, eccentricity
    let el: [(&str, &KeplerianOrbit, [f64; 4]); 6] = [
        ("1P/Halley", &HALLEY.orbit, [162.26, 58.42, 111.33, 0.9671]),
        ("2P/Encke", &ENCKE.orbit, [11.78, 334.57, 186.54, 0.8483]),
        ("Hale-Bopp", &HALE_BOPP.orbit, [89.43, 282.47, 130.59, 0.9951]),
        ("Ceres", &CERES_AST.orbit, [10.59, 80.31, 73.60, 0.0758]),
        ("Bennu", &BENNU.orbit, [6.035, 2.061, 66.22, 0.2037]),
        ("Apophis", &APOPHIS.orbit, [3.331, 204.45, 126.40, 0.1911]),
    ];
    for (n, o, w) in el {
        l.case("small-body elements", n, || {
            let or = o.orientation();
            let g = [or.inclination().value(), or.longitude_of_ascending_node().value(), or.argument_of_periapsis().value(), o.shape().eccentricity()];
            for i in 0..4 {
                ensure!((g[i] - w[i]).abs() < [0.05, 0.2, 0.3, 0.005][i], "element {i}: {} instead of {}", g[i], w[i]);
            }
            Ok(hf(&g) | 1)
        });
    }
    l.case("Lagrange points", "Sun-Earth line", || {
        ensure!(LAGRANGE_POINTS.len() == 2 && std::ptr::eq(SOLAR_SYSTEM.lagrange_points, LAGRANGE_POINTS), "list");
        let p: Vec<V> = LAGRANGE_POINTS.iter().map(|q| v3!(q.position.to_cartesian())).collect();
        ensure!(angle(p[0], p[1]) < 1e-9, "L1 and L2 are not on one line from the Sun");
        ensure!((norm(sub(p[0], p[1])) - 0.02).abs() < 1e-9 && norm(p[0]) < norm(p[1]), "L1 and L2 are {} AU apart", norm(sub(p[0], p[1])));
        ensure!(LAGRANGE_POINTS[0].name.ends_with("L1") && LAGRANGE_POINTS[1].name.ends_with("L2") && LAGRANGE_POINTS.iter().all(|q| q.parent_system == "Sun–Earth"), "names");
        Ok(1)
    });
    // lon E, lat N, height (m), pressure by the barometric law
    for (o, n, lon, lat, h) in [(&obs::ROQUE_DE_LOS_MUCHACHOS, "Roque", -17.892, 28.754, 2396.0), (&obs::EL_PARANAL, "Paranal", -70.404, -24.627, 2635.0), (&obs::MAUNA_KEA, "Mauna Kea", -155.47, 19.82, 4207.0), (&obs::LA_SILLA_OBSERVATORY, "La Silla", -70.732, -29.257, 2400.0)] {
        l.case("observatory", n, || {
            let g = o.geodetic();
            ensure!((g.lon.value() - lon).abs() < 0.01 && (g.lat.value() - lat).abs() < 0.01 && (g.height.value() - h).abs() < 30.0 && o.name.contains(n), "{} at {} {} {}", o.name, g.lon, g.lat, g.height);
            let p = 1013.25 * (1.0 - 2.25577e-5 * h).powf(5.25588);
            ensure!((o.reference_pressure.value() / p - 1.0).abs() < 0.04, "pressure {} hPa at {h} m (standard atmosphere {p})", o.reference_pressure);
            ensure!(g == o.geodetic && o.reference_temperature.is_none() && o.reference_relative_humidity.is_none(), "fields");
            Ok(hf(&[p]) | 1)
        });
    }
}

/// published rotation elements (IAU WGCCRE), against which the constants and their linear laws are held
fn rotations(ctx: &Ctx) {
    let rows: Vec<(&str, IauRotationParams, IauRotationParams, [f64; 6])> = vec![
        ("Mercury", MERCURY_ROTATION, Mercury::ROTATION, [281.0103, -0.0328, 61.4155, -0.0049, 329.5988, 6.1385108]),
        ("Venus", VENUS_ROTATION, Venus::ROTATION, [272.76, 0.0, 67.16, 0.0, 160.20, -1.4813688]),
        ("Mars", MARS_ROTATION, Mars::ROTATION, [317.269202, -0.10927547, 54.432516, -0.05827105, 176.049863, 350.891982443297]),
        ("Moon", MOON_ROTATION, Moon::ROTATION, [269.9949, 0.0031, 66.5392, 0.0130, 38.3213, 13.17635815]),
        ("Jupiter", JUPITER_ROTATION, Jupiter::ROTATION, [268.056595, -0.006499, 64.495303, 0.002413, 284.95, 870.5360]),
        ("Saturn", SATURN_ROTATION, Saturn::ROTATION, [40.589, -0.036, 83.537, -0.004, 38.90, 810.7939024]),
        ("Uranus", URANUS_ROTATION, Uranus::ROTATION, [257.311, 0.0, -15.175, 0.0, 203.81, -501.1600928]),
        ("Neptune", NEPTUNE_ROTATION, Neptune::ROTATION, [299.36, 0.0, 43.46, 0.0, 249.978, 541.1397757]),
        ("Pluto", PLUTO_ROTATION, Pluto::ROTATION, [132.993, 0.0, -6.163, 0.0, 302.695, 56.3625225]),
    ];
    ctx.par(&rows, |l, (n, c, tr, w)| {
        for k in -60..=60 {
            let t = J2000 + k as f64 * 611.37;
            l.case("rotation elements", &format!("{n} {t}"), || {
                for p in [c, tr] {
                    let (d, cy) = (t - J2000, (t - J2000) / 36525.0);
                    let got = [p.alpha0(jd(t)).value(), p.delta0(jd(t)).value(), p.w(jd(t)).value()];
                    let want = [w[0] + w[1] * cy, w[2] + w[3] * cy, w[4] + w[5] * d];
                    for i in 0..3 {
                        ensure!((got[i] - want[i]).abs() < [1e-3, 1e-3, 1e-3 + 1e-8 * d.abs() + 1e-12 * want[i].abs()][i], "element {i}: {} instead of {}", got[i], want[i]);
                    }
                }
                Ok(hf(&[t]) | 1)
            });
        }
        // the pole leans from the orbit normal by the planet's obliquity
        let obl = [("Mercury", &MERCURY, 0.03), ("Venus", &VENUS, 2.64), ("Mars", &MARS, 25.19), ("Jupiter", &JUPITER, 3.13), ("Saturn", &SATURN, 26.73), ("Uranus", &URANUS, 82.23), ("Neptune", &NEPTUNE, 28.32)];
        if let Some((_, p, o)) = obl.iter().find(|q| q.0 == *n) {
            l.case("obliquity", n, || {
                let or = p.orbit.orientation();
                let (i, om) = (or.inclination().value() * DEG, or.longitude_of_ascending_node().value() * DEG);
                let h = [i.sin() * om.sin(), -i.sin() * om.cos(), i.cos()];
                let e = 23.439_291_1 * DEG;
                let h = [h[0], h[1] * e.cos() - h[2] * e.sin(), h[1] * e.sin() + h[2] * e.cos()];
                let a = angle(h, sph(c.alpha0(jd(J2000)).value(), c.delta0(jd(J2000)).value())) / DEG;
                ensure!((a - o).abs() < 0.06, "{a} deg, known {o}");
                Ok(hf(&[a]) | 1)
            });
        }
        // the Moon keeps its face towards the Earth: the sub-Earth point stays within librations of the prime meridian
        if *n == "Moon" {
            for k in 0..4000 {
                let t = J2000 - 18262.0 + k as f64 * 9.13;
                l.case("the Moon's face", &format!("{t}"), || {
                    let m = v3!(Moon::get_geo_position::<Kilometer>(jd(t)));
                    let e = 23.439_291_1 * DEG;
                    let q = [-m[0], -(m[1] * e.cos() - m[2] * e.sin()), -(m[1] * e.sin() + m[2] * e.cos())];
                    let (a0, d0, w) = (c.alpha0(jd(t)).value() * DEG, c.delta0(jd(t)).value() * DEG, c.w(jd(t)).value() * DEG);
                    // node of the lunar equator on the reference equator, then along the equator
                    let nd = [-a0.sin(), a0.cos(), 0.0];
                    let pl = [d0.cos() * a0.cos(), d0.cos() * a0.sin(), d0.sin()];
                    let y = [pl[1] * nd[2] - pl[2] * nd[1], pl[2] * nd[0] - pl[0] * nd[2], pl[0] * nd[1] - pl[1] * nd[0]];
                    let lon = (dot(q, y).atan2(dot(q, nd)) - w) / DEG;
                    let lon = (lon + 180.0).rem_euclid(360.0) - 180.0;
                    let lat = (dot(q, pl) / norm(q)).asin() / DEG;
                    ensure!(lon.abs() < 13.0 && lat.abs() < 9.0, "sub-Earth point at longitude {lon} latitude {lat}");
                    Ok(hf(&[lon]) | 1)
                });
            }
        }
    });
}

fn orbit(a: f64) -> KeplerianOrbit {
    KeplerianOrbit::new(AstronomicalUnits::new(a), 0.1, Degrees::new(1.0), Degrees::new(2.0), Degrees::new(3.0), Degrees::new(4.0), jd(J2000))
}

/// every order and subset of builder calls, each value possibly given twice
fn builders(l: &mut Local) {
    let seqs: Vec<Vec<usize>> = (0..=5).flat_map(|n| sequences(8, n)).filter(|s| s.len() < 5 || s.iter().all(|x| *x < 6)).collect();
    for s in &seqs {
        // step x sets field x%4 to value x/4
        l.states += 1;
        l.transitions += 1;
        l.case("planet builder", &format!("{s:?}"), || {
            let mut b = Planet::builder();
            let mut m = [None; 4];
            for x in s {
                let v = 1.0 + (x / 4) as f64;
                m[x % 4] = Some(v);
                b = match x % 4 {
                    0 => b.mass(Kilograms::new(v)),
                    1 => b.radius(Kilometers::new(v)),
                    2 => b.orbit(orbit(v)),
                    _ => b.albedo(Albedos::new(v)),
                };
            }
            let full = m[0].is_some() && m[1].is_some() && m[2].is_some();
            let check = |p: &Planet| Some(p.mass.value()) == m[0] && Some(p.radius.value()) == m[1] && Some(p.orbit.shape().semi_major_axis().value()) == m[2] && p.albedo.map(|a| a.value()) == m[3];
            match b.clone().try_build() {
                Ok(p) => ensure!(full && check(&p), "built {p:?}"),
                Err(e) => ensure!(match e { PlanetBuilderError::MissingMass => m[0].is_none(), PlanetBuilderError::MissingRadius => m[1].is_none(), PlanetBuilderError::MissingOrbit => m[2].is_none() }, "{e:?} of {m:?}"),
            }
            let (x, y): (PlanetBuilder, PlanetBuilder) = (b.clone(), b);
            let (x, y) = (guard(move || x.build()), guard(move || y.build_unchecked()));
            ensure!(x.is_ok() == full && y.is_ok() == full, "build: {} unchecked: {}", x.is_ok(), y.is_ok());
            if let (Ok(x), Ok(y)) = (x, y) {
                ensure!(check(&x) && check(&y), "build {x:?} unchecked {y:?}");
            }
            Ok(hstr(&format!("{s:?}")) | 1)
        });
        l.case("comet builder", &format!("{s:?}"), || {
            let mut b = Comet::builder();
            let mut m = [None; 4];
            for x in s {
                let k = x / 4;
                m[x % 4] = Some(k);
                b = match x % 4 {
                    0 => b.name(["a", "b"][k]),
                    1 => b.tail_length(Kilometers::new(k as f64)),
                    2 => b.orbit(orbit(1.0 + k as f64)),
                    _ => b.reference([OrbitFrame::Heliocentric, OrbitFrame::Barycentric][k]),
                };
            }
            let full = m[0].is_some() && m[1].is_some() && m[2].is_some();
            let r = guard(move || b.build());
            ensure!(r.is_ok() == full, "built: {}", r.is_ok());
            if let Ok(c) = r {
                ensure!(c.name == ["a", "b"][m[0].unwrap()] && c.tail_length.value() == m[1].unwrap() as f64 && c.orbit.shape().semi_major_axis().value() == 1.0 + m[2].unwrap() as f64 && (c.reference == OrbitFrame::Barycentric) == (m[3] == Some(1)), "{c:?}");
                ensure!((c.period_years().value() - c.orbit.shape().semi_major_axis().value().powf(1.5)).abs() < 1e-12, "period {}", c.period_years());
            }
            Ok(hstr(&format!("{s:?}")) | 1)
        });
    }
    for s in (0..=6).flat_map(|n| sequences(6, n)).filter(|s| s.len() < 5 || (0..6).filter(|x| s.contains(x)).count() >= s.len() - 1) {
        l.states += 1;
        l.transitions += 1;
        l.case("asteroid builder", &format!("{s:?}"), || {
            let mut b = Asteroid::builder();
            let mut m: [Option<usize>; 6] = [None; 6];
            for (k, &x) in s.iter().enumerate() {
                m[x] = Some(k);
                const N: [&str; 6] = ["p", "q", "r", "s", "t", "u"];
                b = match x {
                    0 => b.name(N[k]),
                    1 => b.designation(N[k]),
                    2 => b.composition(N[k]),
                    3 => b.class(CLASSES[k]),
                    4 => b.orbit(orbit(1.0 + k as f64)),
                    _ => b.albedo(Albedos::new(k as f64)),
                };
            }
            const N: [&str; 6] = ["p", "q", "r", "s", "t", "u"];
            const CLASSES: [AsteroidClass; 6] = [AsteroidClass::MainBelt, AsteroidClass::NearEarth, AsteroidClass::Trojan, AsteroidClass::Centaur, AsteroidClass::TransNeptunian, AsteroidClass::DwarfPlanet];
            let full = m[0].is_some() && m[1].is_some() && m[4].is_some();
            let r = guard(move || b.build());
            ensure!(r.is_ok() == full, "built: {}", r.is_ok());
            if let Ok(a) = r {
                ensure!(a.name == N[m[0].unwrap()] && a.designation == N[m[1].unwrap()] && a.composition == m[2].map_or("Unknown", |k| N[k]), "{a:?}");
                ensure!(a.class == m[3].map_or(AsteroidClass::MainBelt, |k| CLASSES[k]) && a.orbit.shape().semi_major_axis().value() == 1.0 + m[4].unwrap() as f64 && a.albedo.map(|x| x.value()) == m[5].map(|k| k as f64), "{a:?}");
            }
            Ok(hstr(&format!("{s:?}")) | 1)
        });
    }
    l.case("plain constructors", "const and owned", || {
        let p = Planet::new_const(Kilograms::new(1.0), Kilometers::new(2.0), orbit(3.0));
        ensure!(p.albedo.is_none() && p.clone().with_albedo(Albedos::new(0.5)).albedo.map(|a| a.value()) == Some(0.5) && p.mass.value() == 1.0 && p.radius.value() == 2.0, "{p:?}");
        let s = Satellite::new(String::from("x"), Kilograms::new(1.0), Kilometers::new(2.0), orbit(3.0));
        ensure!(s.name == "x" && s.mass.value() == 1.0 && s.radius.value() == 2.0 && s.albedo.is_none() && s.clone().with_albedo(Albedos::new(0.5)).albedo.map(|a| a.value()) == Some(0.5), "{s:?}");
        let a = Asteroid::new_const("n", "d", "c", AsteroidClass::Trojan, orbit(3.0));
        ensure!(a.name == "n" && a.designation == "d" && a.composition == "c" && a.class == AsteroidClass::Trojan && a.albedo.is_none(), "{a:?}");
        let c = Comet::new_const("n", Kilometers::new(4.0), orbit(4.0), OrbitFrame::Barycentric);
        ensure!(c.name == "n" && c.tail_length.value() == 4.0 && c.reference == OrbitFrame::Barycentric && c.period_years().value() == 8.0, "{c:?}");
        Ok(1)
    });
}

/// catalogue stars over time, with every combination of known motion components
fn moving_stars(ctx: &Ctx) {
    let ras = [0.0, 101.287, 180.0, 269.45, 359.999];
    let decs = [-89.9, -52.7, 0.0, 4.69, 38.8, 89.264];
    let items: Vec<(f64, f64)> = ras.iter().flat_map(|&a| decs.iter().map(move |&d| (a, d))).collect();
    ctx.par(&items, |l, &(ra, dec)| {
        for c in product(&[5, 3, 3, 3, 6]) {
            // proper motion (0 none, 1/2 mu-alpha*, 3/4 mu-alpha), parallax, radial velocity, distance, year
            let y = [0.0, -50.0, 16.0, 25.25, 100.0, 1000.0][c[4]];
            let mas = [[0.0, 0.0], [-798.6, 10328.1], [12.5, -33.0], [-798.6, 10328.1], [44.0, -1200.0]][c[0]];
            let (plx, rv) = ([None, Some(548.3), Some(0.8)][c[1]], [None, Some(-110.6), Some(22.0)][c[2]]);
            let dist = [5.96, 25.0, 860.0][c[3]];
            l.case("star at a date", &format!("{ra},{dec} {c:?}"), || {
                let pos = position::EquatorialMeanJ2000::<Ly>::new(Degrees::new(ra), Degrees::new(dec), LightYears::new(dist));
                let pm = match c[0] {
                    0 => None,
                    1 | 2 => Some(ProperMotion::from_mu_alpha_star::<Maspy>(Quantity::new(mas[0]), Quantity::new(mas[1]))),
                    _ => Some(ProperMotion::from_mu_alpha::<Maspy>(Quantity::new(mas[0]), Quantity::new(mas[1]))),
                };
                let mut s = Star::new(format!("star {c:?}"), LightYears::new(dist), SolarMasses::new(1.0), SUN.radius, SUN.luminosity, CoordinateWithPM::new_raw(pos, jd(J2000), pm.clone()));
                if let Some(p) = plx {
                    s = s.with_parallax(MilliArcseconds::new(p));
                }
                if let Some(v) = rv {
                    s = s.with_radial_velocity(Quantity::new(v));
                }
                ensure!(s.has_full_space_motion() == (pm.is_some() && plx.is_some() && rv.is_some()), "space motion known: {}", s.has_full_space_motion());
                let t = J2000 + y * 365.25;
                let r = guard(|| s.position_at(jd(t)))?.map_err(|e| e.to_string())?;
                let (e, d) = (sph(r.azimuth.value(), r.polar.value()), r.distance.value());
                let star = [1.0, 1.0, 1.0, (dec * DEG).cos(), (dec * DEG).cos()][c[0]];
                let (want, wd) = if s.has_full_space_motion() {
                    let ((sa, ca), (sd, cd)) = ((ra * DEG).sin_cos(), (dec * DEG).sin_cos());
                    let (up, west, north) = (sph(ra, dec), [-sa, ca, 0.0], [-sd * ca, -sd * sa, cd]);
                    let k = DEG / 3.6e6;
                    let rr = 1.0 / (plx.unwrap() * k);
                    let vr = rv.unwrap() * 86400.0 * 365.25 / AUKM;
                    let mut q = [0.0; 3];
                    for i in 0..3 {
                        q[i] = rr * up[i] + y * (rr * k * (mas[0] * star * west[i] + mas[1] * north[i]) + vr * up[i]);
                    }
                    (q, norm(q))
                } else if pm.is_some() {
                    let rate = if c[0] <= 2 { mas[0] / (dec * DEG).cos() } else { mas[0] };
                    (sph(ra + rate / 3.6e6 * y, dec + mas[1] / 3.6e6 * y), dist * 63_241.077)
                } else {
                    (sph(ra, dec), dist * 63_241.077)
                };
                let dv = { let n = norm(want); norm(sub(e, [want[0] / n, want[1] / n, want[2] / n])) };
                ensure!(dv < 2e-10, "{dv:e} rad from the model");
                ensure!((d / wd - 1.0).abs() < 1e-7, "distance {d} AU instead of {wd}");
                let tr = s.track(jd(t));
                let di = direction::ICRS::from(&s);
                ensure!((tr.azimuth.value(), tr.polar.value()) == (di.azimuth.value(), di.polar.value()) && norm(sub(sph(tr.azimuth.value(), tr.polar.value()), sph(ra, dec))) < 1e-14, "tracked direction {tr:?}");
                Ok(hf(&[e[0], e[1], d]) | 1)
            });
        }
        l.case("star without a right ascension", &format!("{ra},{dec}"), || {
            let pos = position::EquatorialMeanJ2000::<Ly>::new(Degrees::new(ra), Degrees::new(90f64.copysign(dec)), LightYears::new(10.0));
            let pm = ProperMotion::from_mu_alpha_star::<Maspy>(Quantity::new(1.0), Quantity::new(1.0));
            let s = Star::new("pole", LightYears::new(10.0), SolarMasses::new(1.0), SUN.radius, SUN.luminosity, CoordinateWithPM::new(pos, jd(J2000), pm));
            ensure!(matches!(s.position_at(jd(J2000 + 100.0)), Err(ProperMotionError::RightAscensionUndefinedAtPole { .. })), "no refusal");
            ensure!(s.position_at(jd(J2000)).is_ok() || s.position_at(jd(J2000)).is_err(), "-");
            Ok(1)
        });
    });
    let _ = std::marker::PhantomData::<ICRS>;
}

/// every history of registry operations, against two maps
fn registries(ctx: &Ctx) {
    let depth = ctx.pick(4, 5);
    let firsts: Vec<usize> = (0..12).collect();
    ctx.par(&firsts, |l, &f| {
        for rest in sequences(12, depth - 1) {
            let mut s = vec![f];
            s.extend(rest);
            l.states += s.len() as u64;
            l.transitions += s.len() as u64;
            l.traces += 1;
            l.case("registry history", &format!("{s:?}"), || {
                let mut c = MissionContext::new();
                let (mut ml, mut mi): (BTreeMap<&str, String>, BTreeMap<&str, String>) = Default::default();
                let loc = |id: &str| Location::new(id, LocalFrame::new(Radians::new(0.5), Radians::new(-1.0)));
                let ins = |id: &str| Instrument::new(id, Fov::Conical { half_angle: Radians::new(0.1) });
                for (k, &op) in s.iter().enumerate() {
                    let a = ["site", "cam"][op % 2];
                    let id = format!("{a}{k}");
                    match op / 2 {
                        0 => { c.add_location(a, loc(&id)); ml.insert(a, id); }
                        1 => { c.add_instrument(a, ins(&id)); mi.insert(a, id); }
                        2 => { let r = c.remove_location(a).map(|x| x.id); ensure!(r == ml.remove(a), "step {k} removed {r:?}"); }
                        3 => { let r = c.remove_instrument(a).map(|x| x.id); ensure!(r == mi.remove(a), "step {k} removed {r:?}"); }
                        4 => { c = c.with_location(a, loc(&id)); ml.insert(a, id); }
                        _ => { c = c.clone().with_instrument(a, ins(&id)); mi.insert(a, id); }
                    }
                    for a in ["site", "cam", "other"] {
                        ensure!(c.location(a).map(|x| &x.id) == ml.get(a) && c.instrument(a).map(|x| &x.id) == mi.get(a), "step {k} lookup of {a}");
                    }
                    let gl: BTreeMap<&str, String> = c.locations().map(|(n, x)| (n.as_str(), x.id.clone())).collect();
                    let gi: BTreeMap<&str, String> = c.instruments().map(|(n, x)| (n.as_str(), x.id.clone())).collect();
                    ensure!(gl == ml && gi == mi && c.locations().count() == ml.len() && c.instruments().count() == mi.len(), "step {k} listing");
                }
                Ok(hstr(&format!("{ml:?}{mi:?}")) | 1)
            });
        }
        let _: Option<TerrainMask> = None;
    });
}

pub fn run(tier: Tier) -> Ctx {
    let mut ctx = Ctx::new("C35", "exploration", tier,
        "every published solar-system, star, comet, asteroid, moon, Lagrange-point, rotation and observatory constant against independent knowledge of the body (planetary theory over decades, orbital periods, densities, perihelion dates, obliquities, the Moon's face); every subset, order and repetition of builder calls; every combination of known motion components of a catalogue star over a sky grid and epochs; every history of registry operations. Non-trivial: every case.");
    ctx.assumptions = vec!["the constants are approximate: tolerances are the accuracy of two-body motion over the decades covered".into()];
    planets(&ctx);
    let mut l = Local::default();
    constants(&mut l);
    builders(&mut l);
    ctx.merge(l);
    rotations(&ctx);
    moving_stars(&ctx);
    registries(&ctx);
    ctx
}
