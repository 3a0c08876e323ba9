#![allow(clippy::all)]
#![allow(dead_code)]
#[cfg(not(miri))]
mod alloc;
mod color;
mod gen;
mod json;
mod props;
mod rng;
mod run;
mod script;
#[cfg(feature = "capi")]
mod capi;

use std::sync::Mutex;

#[cfg(not(miri))]
#[global_allocator]
static ALLOC: alloc::Inj = alloc::Inj;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let prop = args.get(1).cloned().unwrap_or_default();
    let ctx = run::Ctx {
        seed: get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
        thorough: get("--tier").as_deref() == Some("thorough"),
        only: get("--case").map(|c| { let (p, i) = c.split_once('#').expect("--case part#idx"); (p.to_string(), i.parse().unwrap()) }),
        scale: get("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.),
        threads: get("--threads").and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get())),
        out: get("--out").unwrap_or_default(),
        part_secs: get("--part-secs").and_then(|s| s.parse().ok()).unwrap_or(120.),
        shard: get("--shard").and_then(|s| { let (a, b) = s.split_once('/')?; Some((a.parse().ok()?, b.parse().ok()?)) }).unwrap_or((0, 1)),
        rep: Mutex::new(Default::default()),
        prop: prop.clone(),
    };
    run::install_hook();
    if prop == "selftest" { println!("ok"); return; }
    if !props::run(&prop, &ctx, &args) {
        eprintln!("unknown property {prop}");
        std::process::exit(3);
    }
    std::process::exit(ctx.write_report());
}
