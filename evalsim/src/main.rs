//! `evaldst` - deterministic simulator for iodyn's evaluation harness (/repo/eval).
//! Shares core, driver and generators with ../../sim. See ../../DESIGN.md.
#![allow(dead_code)]
#[path = "../../sim/src/core.rs"] mod core;
#[path = "../../sim/src/driver.rs"] mod driver;
mod el;
#[path = "../../sim/src/entropy.rs"] mod entropy;
#[path = "../../sim/src/rng.rs"] mod rng;
#[path = "../../sim/src/swarm.rs"] mod swarm;
mod clock;
mod gen;
mod registry;
mod world;

fn main() {
    core::install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    std::process::exit(driver::main(&args[1..]));
}
