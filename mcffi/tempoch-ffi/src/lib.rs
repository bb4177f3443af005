//! Stand-in for the one type siderust-ffi takes from the tempoch-ffi crate, which is not available
//! offline. The layout is that of tempoch_ffi.h.

/// An interval of Modified Julian Dates.
#[repr(C)]
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct TempochPeriodMjd {
    /// Start.
    pub start_mjd: f64,
    /// End.
    pub end_mjd: f64,
}
