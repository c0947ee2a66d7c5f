//! Deterministic simulation of lazy-clone-collections: see /verif/DESIGN.md.
mod alloc;
mod coll;
mod ctl;
mod elem;
mod gen;
mod hb;
mod model;
mod ops;
mod oracle;
mod plan;
mod pre;
mod reenter;
mod rng;
mod run;
mod sersim;
mod side;
mod sup;
mod usage;
mod walk;

#[global_allocator]
static A: alloc::SimAlloc = alloc::SimAlloc;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = sup::main(&args);
    std::process::exit(code);
}
