//! `dst` - deterministic simulator for iodyn. See DESIGN.md.
#[macro_use] extern crate adapton;
mod core; mod cursorworld; mod driver; mod el; mod entropy; mod iters; mod levelworld; mod mapworld; mod razmodel; mod razworld; mod rng; mod scen_raz; mod registry; mod stackworld; mod subs; mod multiworld; mod names; mod swarm;

fn main() {
    core::install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    std::process::exit(driver::main(&args[1..]));
}
