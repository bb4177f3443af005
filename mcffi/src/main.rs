//! mcffi <PROPERTY> <quick|thorough>: the check of the C interface, which links siderust-ffi's sources.
#![allow(dead_code)]
#[macro_use]
#[path = "../../mc/src/core.rs"]
mod core;
mod abi;
mod c31;
#[path = "../../mc/src/spice.rs"]
mod spice;
use crate::core::*;

fn main() {
    run_main(&[("C31", c31::run)]);
}
