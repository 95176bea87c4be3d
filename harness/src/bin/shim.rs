//! The stand-in for cbc and clp, without the libraries of the other programs.
#![allow(dead_code)]

#[path = "../lp.rs"]
mod lp;
#[path = "../fake.rs"]
mod fake;
#[path = "../shim.rs"]
mod shim;

fn main() { shim::play(); }
