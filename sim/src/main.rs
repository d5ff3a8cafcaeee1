#![allow(unknown_lints, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]
mod capi;
mod case;
mod exec;
mod gen;
mod leak;
mod master;
mod minimise;
mod net;
mod os;
mod plan;
mod props;
mod rng;
mod scenario;
mod sched;
mod selftest;
mod sync;
mod tsfile;
mod world;

#[global_allocator]
static MEMORY: os::Preempting = os::Preempting;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    // std remembers whether statx works; let it find out on the real machine
    let _ = std::fs::metadata("/");
    let _ = log::set_logger(&exec::Logger);
    let code = match a.get(1).copied() {
        Some("check") => master::check(&a[2..]),
        Some("worker") => master::worker(&a[2..]),
        Some("one") => master::one(),
        Some("gen") => master::show(&a[2..]),
        Some("replay") => master::replay(&a[2..]),
        Some("selftest") => selftest::run(&a[2..]),
        _ => {
            eprintln!("usage: sim check PROP | replay FILE | gen PROP SEED | selftest");
            2
        }
    };
    std::process::exit(code);
}
