//! The binary interface as published at the pinned commit (siderust-ffi/include/siderust_ffi.h): enumerator values, sizes and offsets.
use siderust_ffi::sampling::*;
use siderust_ffi::*;
use std::mem::{align_of, offset_of, size_of};

pub fn enums() -> Vec<(&'static str, i64, i64)> {
    vec![
        ("SiderustDynamicsStatus::Ok", SiderustDynamicsStatus::Ok as i64, 0),
        ("SiderustDynamicsStatus::NullPointer", SiderustDynamicsStatus::NullPointer as i64, 1),
        ("SiderustDynamicsStatus::EphemerisUnavailable", SiderustDynamicsStatus::EphemerisUnavailable as i64, 2),
        ("SiderustDynamicsStatus::EopUnavailable", SiderustDynamicsStatus::EopUnavailable as i64, 3),
        ("SiderustDynamicsStatus::GravityCoefficientUnavailable", SiderustDynamicsStatus::GravityCoefficientUnavailable as i64, 4),
        ("SiderustDynamicsStatus::AltitudeBelowSurface", SiderustDynamicsStatus::AltitudeBelowSurface as i64, 5),
        ("SiderustDynamicsStatus::DegenerateGeometry", SiderustDynamicsStatus::DegenerateGeometry as i64, 6),
        ("SiderustDynamicsStatus::InvalidStepRequest", SiderustDynamicsStatus::InvalidStepRequest as i64, 7),
        ("SiderustDynamicsStatus::AtmosphereProviderError", SiderustDynamicsStatus::AtmosphereProviderError as i64, 8),
        ("SiderustDynamicsStatus::ProviderError", SiderustDynamicsStatus::ProviderError as i64, 9),
        ("SiderustDynamicsStatus::GravityFieldUnavailable", SiderustDynamicsStatus::GravityFieldUnavailable as i64, 10),
        ("SiderustDynamicsStatus::GeopotentialDegreeOutOfRange", SiderustDynamicsStatus::GeopotentialDegreeOutOfRange as i64, 11),
        ("SiderustDynamicsStatus::InternalPanic", SiderustDynamicsStatus::InternalPanic as i64, 99),
        ("SiderustStatus::Ok", SiderustStatus::Ok as i64, 0),
        ("SiderustStatus::NullPointer", SiderustStatus::NullPointer as i64, 1),
        ("SiderustStatus::InvalidFrame", SiderustStatus::InvalidFrame as i64, 2),
        ("SiderustStatus::InvalidCenter", SiderustStatus::InvalidCenter as i64, 3),
        ("SiderustStatus::TransformFailed", SiderustStatus::TransformFailed as i64, 4),
        ("SiderustStatus::InvalidBody", SiderustStatus::InvalidBody as i64, 5),
        ("SiderustStatus::UnknownStar", SiderustStatus::UnknownStar as i64, 6),
        ("SiderustStatus::InvalidPeriod", SiderustStatus::InvalidPeriod as i64, 7),
        ("SiderustStatus::AllocationFailed", SiderustStatus::AllocationFailed as i64, 8),
        ("SiderustStatus::InvalidArgument", SiderustStatus::InvalidArgument as i64, 9),
        ("SiderustStatus::InternalPanic", SiderustStatus::InternalPanic as i64, 10),
        ("SiderustStatus::DataError", SiderustStatus::DataError as i64, 11),
        ("SiderustStatus::InvalidDimension", SiderustStatus::InvalidDimension as i64, 12),
        ("SiderustStatus::OutOfRange", SiderustStatus::OutOfRange as i64, 13),
        ("SiderustStatus::NoEopData", SiderustStatus::NoEopData as i64, 14),
        ("SiderustLambertBranch::Prograde", SiderustLambertBranch::Prograde as i64, 0),
        ("SiderustLambertBranch::Retrograde", SiderustLambertBranch::Retrograde as i64, 1),
        ("SiderustGravityModel::Wgs72", SiderustGravityModel::Wgs72 as i64, 0),
        ("SiderustGravityModel::Wgs72Iau", SiderustGravityModel::Wgs72Iau as i64, 1),
        ("SiderustGravityModel::Wgs84", SiderustGravityModel::Wgs84 as i64, 2),
        ("SiderustTwilightPhase::Day", SiderustTwilightPhase::Day as i64, 0),
        ("SiderustTwilightPhase::Civil", SiderustTwilightPhase::Civil as i64, 1),
        ("SiderustTwilightPhase::Nautical", SiderustTwilightPhase::Nautical as i64, 2),
        ("SiderustTwilightPhase::Astronomical", SiderustTwilightPhase::Astronomical as i64, 3),
        ("SiderustTwilightPhase::Dark", SiderustTwilightPhase::Dark as i64, 4),
        ("SiderustFrame::ICRS", SiderustFrame::ICRS as i64, 1),
        ("SiderustFrame::EclipticMeanJ2000", SiderustFrame::EclipticMeanJ2000 as i64, 2),
        ("SiderustFrame::EquatorialMeanJ2000", SiderustFrame::EquatorialMeanJ2000 as i64, 3),
        ("SiderustFrame::EquatorialMeanOfDate", SiderustFrame::EquatorialMeanOfDate as i64, 4),
        ("SiderustFrame::EquatorialTrueOfDate", SiderustFrame::EquatorialTrueOfDate as i64, 5),
        ("SiderustFrame::Horizontal", SiderustFrame::Horizontal as i64, 6),
        ("SiderustFrame::ECEF", SiderustFrame::ECEF as i64, 7),
        ("SiderustFrame::Galactic", SiderustFrame::Galactic as i64, 8),
        ("SiderustFrame::GCRS", SiderustFrame::GCRS as i64, 9),
        ("SiderustFrame::EclipticOfDate", SiderustFrame::EclipticOfDate as i64, 10),
        ("SiderustFrame::EclipticTrueOfDate", SiderustFrame::EclipticTrueOfDate as i64, 11),
        ("SiderustFrame::CIRS", SiderustFrame::CIRS as i64, 12),
        ("SiderustFrame::TIRS", SiderustFrame::TIRS as i64, 13),
        ("SiderustFrame::ITRF", SiderustFrame::ITRF as i64, 14),
        ("SiderustFrame::ICRF", SiderustFrame::ICRF as i64, 15),
        ("SiderustCenter::Barycentric", SiderustCenter::Barycentric as i64, 1),
        ("SiderustCenter::Heliocentric", SiderustCenter::Heliocentric as i64, 2),
        ("SiderustCenter::Geocentric", SiderustCenter::Geocentric as i64, 3),
        ("SiderustCenter::Topocentric", SiderustCenter::Topocentric as i64, 4),
        ("SiderustCenter::Bodycentric", SiderustCenter::Bodycentric as i64, 5),
        ("SiderustCrossingDirection::Rising", SiderustCrossingDirection::Rising as i64, 0),
        ("SiderustCrossingDirection::Setting", SiderustCrossingDirection::Setting as i64, 1),
        ("SiderustCulminationKind::Max", SiderustCulminationKind::Max as i64, 0),
        ("SiderustCulminationKind::Min", SiderustCulminationKind::Min as i64, 1),
        ("SiderustAsteroidClass::MainBelt", SiderustAsteroidClass::MainBelt as i64, 0),
        ("SiderustAsteroidClass::NearEarth", SiderustAsteroidClass::NearEarth as i64, 1),
        ("SiderustAsteroidClass::Trojan", SiderustAsteroidClass::Trojan as i64, 2),
        ("SiderustAsteroidClass::Centaur", SiderustAsteroidClass::Centaur as i64, 3),
        ("SiderustAsteroidClass::TransNeptunian", SiderustAsteroidClass::TransNeptunian as i64, 4),
        ("SiderustAsteroidClass::DwarfPlanet", SiderustAsteroidClass::DwarfPlanet as i64, 5),
        ("SiderustOrbitFrame::Heliocentric", SiderustOrbitFrame::Heliocentric as i64, 0),
        ("SiderustOrbitFrame::Barycentric", SiderustOrbitFrame::Barycentric as i64, 1),
        ("SiderustLengthUnit::AU", SiderustLengthUnit::AU as i64, 0),
        ("SiderustLengthUnit::Km", SiderustLengthUnit::Km as i64, 1),
        ("SiderustLengthUnit::LightYear", SiderustLengthUnit::LightYear as i64, 2),
        ("SiderustLengthUnit::Parsec", SiderustLengthUnit::Parsec as i64, 3),
        ("SiderustLengthUnit::Meter", SiderustLengthUnit::Meter as i64, 4),
        ("SiderustBody::Sun", SiderustBody::Sun as i64, 0),
        ("SiderustBody::Moon", SiderustBody::Moon as i64, 1),
        ("SiderustBody::Mercury", SiderustBody::Mercury as i64, 2),
        ("SiderustBody::Venus", SiderustBody::Venus as i64, 3),
        ("SiderustBody::Mars", SiderustBody::Mars as i64, 4),
        ("SiderustBody::Jupiter", SiderustBody::Jupiter as i64, 5),
        ("SiderustBody::Saturn", SiderustBody::Saturn as i64, 6),
        ("SiderustBody::Uranus", SiderustBody::Uranus as i64, 7),
        ("SiderustBody::Neptune", SiderustBody::Neptune as i64, 8),
        ("SiderustSubjectKind::Body", SiderustSubjectKind::Body as i64, 0),
        ("SiderustSubjectKind::Star", SiderustSubjectKind::Star as i64, 1),
        ("SiderustSubjectKind::Icrs", SiderustSubjectKind::Icrs as i64, 2),
        ("SiderustSubjectKind::GenericTarget", SiderustSubjectKind::GenericTarget as i64, 3),
        ("SiderustRaConvention::MuAlpha", SiderustRaConvention::MuAlpha as i64, 0),
        ("SiderustRaConvention::MuAlphaStar", SiderustRaConvention::MuAlphaStar as i64, 1),
        ("SiderustEarthOrientationModel::Iau2000A", SiderustEarthOrientationModel::Iau2000A as i64, 0),
        ("SiderustEarthOrientationModel::Iau2000B", SiderustEarthOrientationModel::Iau2000B as i64, 1),
        ("SiderustEarthOrientationModel::Iau2006", SiderustEarthOrientationModel::Iau2006 as i64, 2),
        ("SiderustEarthOrientationModel::Iau2006A", SiderustEarthOrientationModel::Iau2006A as i64, 3),
        ("SiderustTargetCoordKind::SphericalDir", SiderustTargetCoordKind::SphericalDir as i64, 0),
        ("SiderustTargetCoordKind::SphericalPos", SiderustTargetCoordKind::SphericalPos as i64, 1),
        ("SiderustTargetCoordKind::CartesianPos", SiderustTargetCoordKind::CartesianPos as i64, 2),
        ("SiderustAzimuthExtremumKind::Max", SiderustAzimuthExtremumKind::Max as i64, 0),
        ("SiderustAzimuthExtremumKind::Min", SiderustAzimuthExtremumKind::Min as i64, 1),
        ("SiderustPhaseKind::NewMoon", SiderustPhaseKind::NewMoon as i64, 0),
        ("SiderustPhaseKind::FirstQuarter", SiderustPhaseKind::FirstQuarter as i64, 1),
        ("SiderustPhaseKind::FullMoon", SiderustPhaseKind::FullMoon as i64, 2),
        ("SiderustPhaseKind::LastQuarter", SiderustPhaseKind::LastQuarter as i64, 3),
        ("SiderustMoonPhaseLabel::NewMoon", SiderustMoonPhaseLabel::NewMoon as i64, 0),
        ("SiderustMoonPhaseLabel::WaxingCrescent", SiderustMoonPhaseLabel::WaxingCrescent as i64, 1),
        ("SiderustMoonPhaseLabel::FirstQuarter", SiderustMoonPhaseLabel::FirstQuarter as i64, 2),
        ("SiderustMoonPhaseLabel::WaxingGibbous", SiderustMoonPhaseLabel::WaxingGibbous as i64, 3),
        ("SiderustMoonPhaseLabel::FullMoon", SiderustMoonPhaseLabel::FullMoon as i64, 4),
        ("SiderustMoonPhaseLabel::WaningGibbous", SiderustMoonPhaseLabel::WaningGibbous as i64, 5),
        ("SiderustMoonPhaseLabel::LastQuarter", SiderustMoonPhaseLabel::LastQuarter as i64, 6),
        ("SiderustMoonPhaseLabel::WaningCrescent", SiderustMoonPhaseLabel::WaningCrescent as i64, 7),
    ]
}

pub fn layouts() -> Vec<(&'static str, Vec<usize>, Vec<usize>)> {
    vec![
        ("SiderustAtmosphereVtable", vec![size_of::<SiderustAtmosphereVtable>(), align_of::<SiderustAtmosphereVtable>(), offset_of!(SiderustAtmosphereVtable, density), offset_of!(SiderustAtmosphereVtable, user_data)], vec![16, 8, 0, 8]),
        ("SiderustGravityVtable", vec![size_of::<SiderustGravityVtable>(), align_of::<SiderustGravityVtable>(), offset_of!(SiderustGravityVtable, gm_km3_s2), offset_of!(SiderustGravityVtable, reference_radius_km), offset_of!(SiderustGravityVtable, max_degree), offset_of!(SiderustGravityVtable, max_order), offset_of!(SiderustGravityVtable, c_normalized), offset_of!(SiderustGravityVtable, s_normalized), offset_of!(SiderustGravityVtable, user_data)], vec![48, 8, 0, 8, 16, 20, 24, 32, 40]),
        ("SiderustLambertDiagnostics", vec![size_of::<SiderustLambertDiagnostics>(), align_of::<SiderustLambertDiagnostics>(), offset_of!(SiderustLambertDiagnostics, iterations), offset_of!(SiderustLambertDiagnostics, residual), offset_of!(SiderustLambertDiagnostics, revolutions)], vec![24, 8, 0, 8, 16]),
        ("SiderustOemState", vec![size_of::<SiderustOemState>(), align_of::<SiderustOemState>(), offset_of!(SiderustOemState, epoch_jd), offset_of!(SiderustOemState, pos_km), offset_of!(SiderustOemState, vel_kms)], vec![56, 8, 0, 8, 32]),
        ("SiderustSkyGridCell", vec![size_of::<SiderustSkyGridCell>(), align_of::<SiderustSkyGridCell>(), offset_of!(SiderustSkyGridCell, altitude_deg), offset_of!(SiderustSkyGridCell, azimuth_deg), offset_of!(SiderustSkyGridCell, solid_angle_sr)], vec![24, 8, 0, 8, 16]),
        ("SiderustSubject", vec![size_of::<SiderustSubject>(), align_of::<SiderustSubject>(), offset_of!(SiderustSubject, kind), offset_of!(SiderustSubject, body), offset_of!(SiderustSubject, star_handle), offset_of!(SiderustSubject, icrs_dir), offset_of!(SiderustSubject, generic_target_handle)], vec![48, 8, 0, 4, 8, 16, 40]),
        ("SiderustTargetCoordUnion", vec![size_of::<SiderustTargetCoordUnion>(), align_of::<SiderustTargetCoordUnion>(), offset_of!(SiderustTargetCoordUnion, spherical_dir), offset_of!(SiderustTargetCoordUnion, spherical_pos), offset_of!(SiderustTargetCoordUnion, cartesian_pos)], vec![40, 8, 0, 0, 0]),
        ("SiderustGenericTargetData", vec![size_of::<SiderustGenericTargetData>(), align_of::<SiderustGenericTargetData>(), offset_of!(SiderustGenericTargetData, kind), offset_of!(SiderustGenericTargetData, _pad1), offset_of!(SiderustGenericTargetData, coord), offset_of!(SiderustGenericTargetData, epoch_jd), offset_of!(SiderustGenericTargetData, has_proper_motion), offset_of!(SiderustGenericTargetData, _pad2), offset_of!(SiderustGenericTargetData, proper_motion)], vec![88, 8, 0, 4, 8, 48, 56, 57, 64]),
        ("SiderustGeodetict", vec![size_of::<SiderustGeodetict>(), align_of::<SiderustGeodetict>(), offset_of!(SiderustGeodetict, lon_deg), offset_of!(SiderustGeodetict, lat_deg), offset_of!(SiderustGeodetict, height_m)], vec![24, 8, 0, 8, 16]),
        ("SiderustOrbit", vec![size_of::<SiderustOrbit>(), align_of::<SiderustOrbit>(), offset_of!(SiderustOrbit, semi_major_axis_au), offset_of!(SiderustOrbit, eccentricity), offset_of!(SiderustOrbit, inclination_deg), offset_of!(SiderustOrbit, lon_ascending_node_deg), offset_of!(SiderustOrbit, arg_periapsis_deg), offset_of!(SiderustOrbit, mean_anomaly_deg), offset_of!(SiderustOrbit, epoch_jd)], vec![56, 8, 0, 8, 16, 24, 32, 40, 48]),
        ("SiderustMeanMotionOrbit", vec![size_of::<SiderustMeanMotionOrbit>(), align_of::<SiderustMeanMotionOrbit>(), offset_of!(SiderustMeanMotionOrbit, semi_major_axis_au), offset_of!(SiderustMeanMotionOrbit, eccentricity), offset_of!(SiderustMeanMotionOrbit, inclination_deg), offset_of!(SiderustMeanMotionOrbit, lon_ascending_node_deg), offset_of!(SiderustMeanMotionOrbit, arg_periapsis_deg), offset_of!(SiderustMeanMotionOrbit, mean_motion_deg_per_day), offset_of!(SiderustMeanMotionOrbit, epoch_jd)], vec![56, 8, 0, 8, 16, 24, 32, 40, 48]),
        ("SiderustConicOrbit", vec![size_of::<SiderustConicOrbit>(), align_of::<SiderustConicOrbit>(), offset_of!(SiderustConicOrbit, periapsis_distance_au), offset_of!(SiderustConicOrbit, eccentricity), offset_of!(SiderustConicOrbit, inclination_deg), offset_of!(SiderustConicOrbit, lon_ascending_node_deg), offset_of!(SiderustConicOrbit, arg_periapsis_deg), offset_of!(SiderustConicOrbit, mean_anomaly_deg), offset_of!(SiderustConicOrbit, epoch_jd)], vec![56, 8, 0, 8, 16, 24, 32, 40, 48]),
        ("SiderustBodycentricParams", vec![size_of::<SiderustBodycentricParams>(), align_of::<SiderustBodycentricParams>(), offset_of!(SiderustBodycentricParams, orbit), offset_of!(SiderustBodycentricParams, orbit_center), offset_of!(SiderustBodycentricParams, _pad)], vec![64, 8, 0, 56, 57]),
        ("SiderustSearchOpts", vec![size_of::<SiderustSearchOpts>(), align_of::<SiderustSearchOpts>(), offset_of!(SiderustSearchOpts, time_tolerance_days)], vec![8, 8, 0]),
        ("SiderustCrossingEvent", vec![size_of::<SiderustCrossingEvent>(), align_of::<SiderustCrossingEvent>(), offset_of!(SiderustCrossingEvent, mjd), offset_of!(SiderustCrossingEvent, direction)], vec![16, 8, 0, 8]),
        ("SiderustCulminationEvent", vec![size_of::<SiderustCulminationEvent>(), align_of::<SiderustCulminationEvent>(), offset_of!(SiderustCulminationEvent, mjd), offset_of!(SiderustCulminationEvent, altitude_deg), offset_of!(SiderustCulminationEvent, kind)], vec![24, 8, 0, 8, 16]),
        ("SiderustProperMotion", vec![size_of::<SiderustProperMotion>(), align_of::<SiderustProperMotion>(), offset_of!(SiderustProperMotion, pm_ra_deg_yr), offset_of!(SiderustProperMotion, pm_dec_deg_yr), offset_of!(SiderustProperMotion, ra_convention)], vec![24, 8, 0, 8, 16]),
        ("SiderustPlanet", vec![size_of::<SiderustPlanet>(), align_of::<SiderustPlanet>(), offset_of!(SiderustPlanet, mass_kg), offset_of!(SiderustPlanet, radius_km), offset_of!(SiderustPlanet, orbit)], vec![72, 8, 0, 8, 16]),
        ("SiderustSphericalDir", vec![size_of::<SiderustSphericalDir>(), align_of::<SiderustSphericalDir>(), offset_of!(SiderustSphericalDir, polar_deg), offset_of!(SiderustSphericalDir, azimuth_deg), offset_of!(SiderustSphericalDir, frame)], vec![24, 8, 0, 8, 16]),
        ("SiderustCartesianDir", vec![size_of::<SiderustCartesianDir>(), align_of::<SiderustCartesianDir>(), offset_of!(SiderustCartesianDir, x), offset_of!(SiderustCartesianDir, y), offset_of!(SiderustCartesianDir, z), offset_of!(SiderustCartesianDir, frame)], vec![32, 8, 0, 8, 16, 24]),
        ("SiderustSphericalPos", vec![size_of::<SiderustSphericalPos>(), align_of::<SiderustSphericalPos>(), offset_of!(SiderustSphericalPos, lon_deg), offset_of!(SiderustSphericalPos, lat_deg), offset_of!(SiderustSphericalPos, distance), offset_of!(SiderustSphericalPos, frame), offset_of!(SiderustSphericalPos, center), offset_of!(SiderustSphericalPos, length_unit)], vec![40, 8, 0, 8, 16, 24, 28, 32]),
        ("SiderustCartesianPos", vec![size_of::<SiderustCartesianPos>(), align_of::<SiderustCartesianPos>(), offset_of!(SiderustCartesianPos, x), offset_of!(SiderustCartesianPos, y), offset_of!(SiderustCartesianPos, z), offset_of!(SiderustCartesianPos, frame), offset_of!(SiderustCartesianPos, center), offset_of!(SiderustCartesianPos, length_unit)], vec![40, 8, 0, 8, 16, 24, 28, 32]),
        ("SiderustCartesianVel", vec![size_of::<SiderustCartesianVel>(), align_of::<SiderustCartesianVel>(), offset_of!(SiderustCartesianVel, vx), offset_of!(SiderustCartesianVel, vy), offset_of!(SiderustCartesianVel, vz), offset_of!(SiderustCartesianVel, frame)], vec![32, 8, 0, 8, 16, 24]),
        ("SiderustAzimuthCrossingEvent", vec![size_of::<SiderustAzimuthCrossingEvent>(), align_of::<SiderustAzimuthCrossingEvent>(), offset_of!(SiderustAzimuthCrossingEvent, mjd), offset_of!(SiderustAzimuthCrossingEvent, direction), offset_of!(SiderustAzimuthCrossingEvent, _pad)], vec![16, 8, 0, 8, 12]),
        ("SiderustAzimuthExtremum", vec![size_of::<SiderustAzimuthExtremum>(), align_of::<SiderustAzimuthExtremum>(), offset_of!(SiderustAzimuthExtremum, mjd), offset_of!(SiderustAzimuthExtremum, azimuth_deg), offset_of!(SiderustAzimuthExtremum, kind), offset_of!(SiderustAzimuthExtremum, _pad)], vec![24, 8, 0, 8, 16, 20]),
        ("SiderustMoonPhaseGeometry", vec![size_of::<SiderustMoonPhaseGeometry>(), align_of::<SiderustMoonPhaseGeometry>(), offset_of!(SiderustMoonPhaseGeometry, phase_angle_rad), offset_of!(SiderustMoonPhaseGeometry, illuminated_fraction), offset_of!(SiderustMoonPhaseGeometry, elongation_rad), offset_of!(SiderustMoonPhaseGeometry, waxing), offset_of!(SiderustMoonPhaseGeometry, _pad)], vec![32, 8, 0, 8, 16, 24, 25]),
        ("SiderustPhaseEvent", vec![size_of::<SiderustPhaseEvent>(), align_of::<SiderustPhaseEvent>(), offset_of!(SiderustPhaseEvent, mjd), offset_of!(SiderustPhaseEvent, kind), offset_of!(SiderustPhaseEvent, _pad)], vec![16, 8, 0, 8, 12]),
    ]
}
