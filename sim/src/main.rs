//! Deterministic simulator for minifier-rs. See ../../DESIGN.md.

mod alloc;
mod cli;
mod core;
mod det;
mod engine;
mod gen;
mod json;
mod model;
mod props;
mod rng;
mod shrink;
mod sink;
mod steps;
mod stream;
mod sys;

// heap accounting would be one more access to shared memory
#[cfg(not(steps))]
#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = a.iter().map(|x| x.as_str()).collect();
    let code = match a.as_slice() {
        ["check", p] => engine::check(p),
        ["worker", p, rest @ ..] => engine::worker(p, rest),
        ["try", p] => engine::try_loop(p),
        ["replay", f] => engine::replay(f),
        ["show", p, idx] => engine::show_one(p, idx.parse().unwrap_or(0)),
        ["selftest", p, n] => engine::selftest(p, n.parse().unwrap_or(1000)),
        _ => {
            eprintln!("usage: minsim check|worker|try|replay|show|selftest ...");
            2
        }
    };
    std::process::exit(code);
}
