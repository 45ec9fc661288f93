#![allow(dead_code)]
#[macro_use]
mod rt;
mod driver;
mod ex;
mod leaf;
mod scn;

use driver::{Opts, Scenario};

#[global_allocator]
static ALLOC: rt::SimAlloc = rt::SimAlloc;

fn find(name: &str) -> Option<&'static Scenario> {
    scn::PROPS.iter().flat_map(|p| p.scen.iter()).map(|x| x.0).find(|s| s.name == name)
}
fn env(k: &str) -> Option<String> {
    std::env::var(k).ok()
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let cmd = a.get(1).map(|s| s.as_str()).unwrap_or("");
    let root = env("SIM_ROOT").unwrap_or_else(|| "/verif".into());
    let seed = env("VERIF_SEED").and_then(|s| s.parse::<u64>().ok()).unwrap_or(1);
    scn::compat::warm_up();
    let code = match cmd {
        "list" => {
            for p in scn::PROPS {
                println!("{} {}", p.id, p.scen.iter().map(|x| x.0.name).collect::<Vec<_>>().join(","));
            }
            0
        }
        "check" | "one" | "detloop" | "leaks" => {
            let Some(p) = scn::PROPS.iter().find(|p| a.get(2).map(|x| x == p.id).unwrap_or(false)) else {
                eprintln!("simcheck: unknown property");
                std::process::exit(2);
            };
            let tier = a.get(3).cloned().unwrap_or_else(|| "quick".into());
            let thorough = tier == "thorough";
            let o = Opts {
                runs: env("SIM_RUNS").and_then(|s| s.parse().ok()).unwrap_or(if thorough { p.quick * 40 } else { p.quick }),
                max_s: env("SIM_MAX_S").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 3000 } else { 90 }),
                workers: env("SIM_WORKERS").and_then(|s| s.parse().ok()).unwrap_or(64),
                seed,
                tier,
                root,
                det_every: 97,
                only: env("SIM_ONLY"),
            };
            if cmd == "leaks" {
                driver::leaks(p, &o)
            } else if cmd == "detloop" {
                driver::detloop(p, &o, a.get(4).and_then(|s| s.parse().ok()).unwrap_or(0))
            } else if cmd == "one" {
                driver::one(p, &o, a.get(4).and_then(|s| s.parse().ok()).unwrap_or(0))
            } else {
                driver::check(p, &o)
            }
        }
        "replay" => driver::replay(a.get(2).map(|s| s.as_str()).unwrap_or(""), find),
        _ => {
            eprintln!("usage: simcheck list | check <property> [quick|thorough] | replay <file>");
            2
        }
    };
    std::process::exit(code);
}
