use siderust::coordinates::transform::context::*;
use siderust::coordinates::transform::providers::*;
use siderust::coordinates::transform::centers::*;
use siderust::coordinates::cartesian::*;
use siderust::coordinates::centers::*;
use siderust::coordinates::frames::*;
use siderust::time::JulianDate;
use siderust::astro::earth_rotation::*;
use siderust::qtty::unit::Kilometer;
pub fn run() {
    let c: AstroContext = Default::default();
    for jd in [2451545.0, 2451545.25, 2451545.5, 2460000.5, 2460000.625] {
        let t = JulianDate::new(jd);
        let st = crate::c01::site(0.0, 0.0);
        let g = gmst_from_tt(t).value().to_degrees().rem_euclid(360.0);
        let ra = |v: [f64;3]| v[1].atan2(v[0]).to_degrees().rem_euclid(360.0);
        let d = |v: [f64;3]| (v[2]/(v[0]*v[0]+v[1]*v[1]+v[2]*v[2]).sqrt()).asin().to_degrees();
        let e2t = frame_rotation::<ECEF, EquatorialTrueOfDate>(t, &c).apply_array([1.0,0.0,0.0]);
        let e2m = frame_rotation::<ECEF, EquatorialMeanOfDate>(t, &c).apply_array([1.0,0.0,0.0]);
        let e2i = frame_rotation::<ECEF, ICRS>(t, &c).apply_array([1.0,0.0,0.0]);
        let p = Position::<Geocentric, EquatorialMeanJ2000, Kilometer>::new(0.0,0.0,0.0);
        let q: Position<Topocentric, EquatorialMeanJ2000, Kilometer> = to_topocentric_with_ctx::<_,_,_,_,siderust::astro::nutation::Iau2006A>(&p, st, t, &c);
        let s = [-q.x().value(), -q.y().value(), -q.z().value()];
        let r = frame_rotation::<EquatorialMeanJ2000, EquatorialMeanOfDate>(t, &c);
        let sm = r.apply_array(s);
        println!("jd {jd} gmst {g:.5}  ECEF->TOD {:.5} ECEF->MOD {:.5} {:.5} ->ICRS {:.5};  site(topo) J2000 ra {:.5} dec {:.5} mod ra {:.5} dec {:.5}", ra(e2t), ra(e2m), d(e2m), ra(e2i), ra(s), d(s), ra(sm), d(sm));
    }
}
