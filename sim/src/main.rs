//! Deterministic simulation of bodoni/postscript.

#![allow(dead_code)]

#[global_allocator]
static SEAM: alloc::Seam = alloc::Seam;

mod alloc;
mod ask;
mod canon;
mod cff;
mod child;
mod clock;
mod damage;
mod driver;
mod genchar;
mod genfont;
mod hash;
mod json;
mod known;
mod minimise;
mod props;
mod rng;
mod run;
mod scenario;
mod sched;
mod t2;
mod tape;
mod trap;

fn main() {
    run::quiet();
    let arguments: Vec<String> = std::env::args().skip(1).collect();
    let arguments: Vec<&str> = arguments.iter().map(|a| a.as_str()).collect();
    let code = match arguments[..] {
        ["batch", property, seed, start, count, progress] => child::batch(property, seed, start, count, progress),
        ["one", file] => child::one(file, false, false),
        ["solo", file] => child::one(file, false, true),
        ["trace", file] => child::one(file, true, false),
        ["recite"] => {
            ask::recite();
            0
        }
        ["known", id] => known::child(id),
        ["check", property, tier] => driver::check(property, tier),
        ["replay", file] => driver::replay(file),
        ["survey", property, count] => driver::survey(property, count),
        _ => {
            eprintln!("usage: sim check PROPERTY TIER | replay FILE | trace FILE | survey PROPERTY COUNT");
            3
        }
    };
    std::process::exit(code);
}
