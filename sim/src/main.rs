#![allow(invalid_runtime_symbol_definitions, unknown_lints)]
mod alloc;
mod core;
mod coro;
mod disk;
mod model;
mod props;
mod runner;
mod types;
mod vfs;

use runner::*;
use std::time::Duration;

fn prop(id: &str) -> &'static Prop {
    match props::PROPS.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {id}");
            std::process::exit(2);
        }
    }
}

fn main() {
    runner::hook();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let s = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let n = |i: usize, d: u64| a.get(i).and_then(|s| s.parse().ok()).unwrap_or(d);
    let workers = std::env::var("SIM_WORKERS")
        .ok()
        .and_then(|v| v.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16));
    let code = match s(0) {
        "check" => {
            let p = prop(s(1));
            let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
            let tier = if tier == "thorough" { "thorough" } else { "quick" }.to_string();
            let seed = std::env::var("VERIF_SEED").ok().and_then(|v| v.parse().ok()).unwrap_or(1);
            let runs = std::env::var("SIM_RUNS").ok().and_then(|v| v.parse().ok()).unwrap_or(
                if tier == "thorough" { p.thorough } else { p.quick },
            );
            let limit = Duration::from_secs(if tier == "thorough" { 4 * 3600 } else { 480 });
            supervise(p, &Opts { seed, tier, runs, workers, from: 0, limit })
        }
        "work" => {
            let o = Opts {
                seed: n(2, 1),
                tier: s(3).to_string(),
                runs: n(4, 1),
                workers: n(5, 1) as usize,
                from: n(6, 0),
                limit: Duration::from_secs(n(7, 60)),
            };
            work(prop(s(1)), &o, std::path::Path::new(s(8)))
        }
        "one" => one(prop(s(1)), n(2, 1), n(3, 0)),
        "replay" => replay(props::PROPS, s(1)),
        "hashes" => {
            hashes(prop(s(1)), n(2, 1), n(3, 0), n(4, 100), n(5, 1) as usize);
            0
        }
        "list" => {
            for p in props::PROPS {
                println!("{} {} {}", p.id, p.quick, p.thorough);
            }
            0
        }
        _ => {
            eprintln!("usage: brec_sim check ID | replay FILE | one ID SEED RUN | hashes ID SEED FROM N WORKERS | list");
            2
        }
    };
    std::process::exit(code);
}
