//! Entry points handed to the verifier. Each function only calls the public API of the crate under
//! verification; the bodies that are verified are those of /repo, reached from here by the compiler's
//! own name resolution.
#![no_std]
#![allow(clippy::all)]

#[cfg(feature = "have_alloc")]
extern crate alloc;

#[cfg(feature = "have_serde")]
pub mod omm;

use sgp4::chrono::NaiveDateTime;
use sgp4::*;

/// Stands for an arbitrary epoch to sidereal time function (never inlined by the verifier).
pub fn theta(epoch: f64) -> f64 {
    epoch
}

pub fn new(g: Geopotential, epoch: f64, drag: f64, orbit: Orbit) -> Result<Constants, OutOfRangeEpochEccentricity> {
    Constants::new(g, theta, epoch, drag, orbit)
}

pub fn initial_state(c: &Constants) -> Option<ResonanceState> {
    c.initial_state()
}

pub fn state_t(s: &ResonanceState) -> f64 {
    s.t()
}

pub fn propagate_from_state(
    c: &Constants,
    t: f64,
    state: Option<&mut ResonanceState>,
    afspc: bool,
) -> Result<Prediction, Error> {
    c.propagate_from_state(MinutesSinceEpoch(t), state, afspc)
}

pub fn propagate(c: &Constants, t: f64) -> Result<Prediction, Error> {
    c.propagate(MinutesSinceEpoch(t))
}

pub fn propagate_afspc(c: &Constants, t: f64) -> Result<Prediction, Error> {
    c.propagate_afspc_compatibility_mode(MinutesSinceEpoch(t))
}

pub fn kozai(g: &Geopotential, i: f64, raan: f64, e: f64, argp: f64, m: f64, n: f64) -> Result<Orbit, KozaiElementsError> {
    Orbit::from_kozai_elements(g, i, raan, e, argp, m, n)
}

pub fn from_elements(e: &Elements) -> Result<Constants, ElementsError> {
    Constants::from_elements(e)
}

pub fn from_elements_afspc(e: &Elements) -> Result<Constants, ElementsError> {
    Constants::from_elements_afspc_compatibility_mode(e)
}

pub fn wgs84() -> Geopotential {
    WGS84
}

pub fn wgs72() -> Geopotential {
    WGS72
}

pub fn iau(epoch: f64) -> f64 {
    iau_epoch_to_sidereal_time(epoch)
}

pub fn afspc(epoch: f64) -> f64 {
    afspc_epoch_to_sidereal_time(epoch)
}

pub fn years(d: &NaiveDateTime) -> f64 {
    julian_years_since_j2000(d)
}

pub fn years_afspc(d: &NaiveDateTime) -> f64 {
    julian_years_since_j2000_afspc_compatibility_mode(d)
}

pub fn epoch(e: &Elements) -> f64 {
    e.epoch()
}

pub fn epoch_afspc(e: &Elements) -> f64 {
    e.epoch_afspc_compatibility_mode()
}

pub fn to_minutes(e: &Elements, d: &NaiveDateTime) -> Result<MinutesSinceEpoch, DatetimeToMinutesSinceEpochError> {
    e.datetime_to_minutes_since_epoch(d)
}

pub fn to_datetime(e: &Elements, m: &MinutesSinceEpoch) -> Result<NaiveDateTime, MinutesSinceEpochToDatetimeError> {
    e.minutes_since_epoch_to_datetime(m)
}

#[cfg(feature = "have_alloc")]
pub fn from_tle(name: Option<alloc::string::String>, line1: &[u8], line2: &[u8]) -> Result<Elements, TleError> {
    Elements::from_tle(name, line1, line2)
}

#[cfg(not(feature = "have_alloc"))]
pub fn from_tle(line1: &[u8], line2: &[u8]) -> Result<Elements, TleError> {
    Elements::from_tle(line1, line2)
}

#[cfg(feature = "have_alloc")]
pub fn two_les(text: &str) -> Result<alloc::vec::Vec<Elements>, TleError> {
    parse_2les(text)
}

#[cfg(feature = "have_alloc")]
pub fn three_les(text: &str) -> Result<alloc::vec::Vec<Elements>, TleError> {
    parse_3les(text)
}
