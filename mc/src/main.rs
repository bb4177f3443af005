//! mc <PROPERTY> <quick|thorough>: bounded exhaustive exploration of one property of siderust.
#![allow(dead_code)]
#[macro_use]
mod core;
mod ev;
mod dbg;
mod c01;
mod c02;
mod c06;
mod c36;
mod c35;
mod c34;
mod c33;
mod c32;
mod c30;
mod c23;
mod c24;
mod c19;
mod c09;
mod c11;
mod spice;
mod c10;
mod c15;
mod c14;
mod c13;
mod c12;
mod c16;
mod c25;
mod c28;
mod c26;
mod c21;
mod c20;
mod c18;
mod c05;
mod c04;
mod c08;
mod c07;
mod c22;
mod c27;
use crate::core::*;

type CheckFn = fn(Tier) -> Ctx;
const CHECKS: &[(&str, CheckFn)] = &[("C01", c01::run), ("C02", c02::run_sun), ("C03", c02::run_moon), ("C06", c06::run), ("C22", c22::run), ("C27", c27::run), ("C07", c07::run), ("C08", c08::run), ("C04", c04::run), ("C05", c05::run), ("C18", c18::run), ("C20", c20::run), ("C21", c21::run), ("C26", c26::run), ("C28", c28::run), ("C25", c25::run), ("C16", c16::run), ("C12", c12::run), ("C13", c13::run), ("C14", c14::run), ("C15", c15::run), ("C10", c10::run), ("C11", c11::run), ("C09", c09::run), ("C19", c19::run), ("C24", c24::run), ("C23", c23::run), ("C30", c30::run), ("C32", c32::run), ("C33", c33::run), ("C34", c34::run), ("C35", c35::run), ("C36", c36::run)];

fn main() {
    if std::env::args().nth(1).as_deref() == Some("dbg") { dbg::run(); return; }
    run_main(CHECKS);
}
