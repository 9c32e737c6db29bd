//! lisosim: deterministic simulation of Liso with fault injection.
//!   lisosim check PROP          seeded search; writes evidence, exit 0/1
//!   lisosim one PROP INDEX      one run with its trace
//!   lisosim replay FILE         replays a recorded violation exactly
//!   lisosim determinism PROP N  runs N indices twice and compares
mod crash;
mod errcap;
mod exec;
mod fs;
mod gen;
mod kernel;
mod life;
mod model;
mod own;
mod hist;
mod pipe;
mod props;
mod rng;
mod search;
mod tty;
mod vt;
mod wrap;

fn main() {
    std::env::remove_var("RUST_BACKTRACE");
    std::env::remove_var("RUST_LIB_BACKTRACE");
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let code = match arg(1) {
        "check" => search::check(arg(2)),
        "one" => search::one(arg(2), arg(3).parse().unwrap()),
        "replay" => search::replay(arg(2)),
        "determinism" => search::determinism(arg(2), arg(3).parse().unwrap()),
        _ => {
            eprintln!("usage: lisosim check|one|replay|determinism");
            2
        }
    };
    std::process::exit(code)
}
