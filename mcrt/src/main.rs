//! mcrt <PROPERTY> <quick|thorough>: checks that need tempoch's runtime time data.
#![allow(dead_code)]
#[macro_use]
#[path = "../../mc/src/core.rs"]
mod core;
mod c17;
use crate::core::*;

fn main() {
    run_main(&[("C17", c17::run)]);
}
