//! The command line.

use std::time::Duration;
use crate::engine::{self, RunConfig};
use crate::props;

pub fn main() {
    engine::install_hook();
    let args: Vec<String> = std::env::args().collect();
    let usage = || -> ! {
        eprintln!("usage: verif run <property> [--cases N] | verif replay <property> <file> | verif list | verif child ...");
        std::process::exit(2);
    };
    let find = |id: &str| match props::all().into_iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("no such property: {id}");
            std::process::exit(2);
        }
    };
    if args.get(2).is_some_and(|p| p == "C20") && !props::derive::has_types() {
        std::process::exit(props::derive::drive(&args[1..]));
    }
    let code = match args.get(1).map(|s| &s[..]) {
        Some("list") => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        Some("child") => props::child(&args[2..]),
        Some("run") => {
            let prop = find(args.get(2).unwrap_or_else(|| usage()));
            let cases = args.iter().position(|a| a == "--cases").map(|i| args[i + 1].parse().unwrap());
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let thorough =
                args.iter().any(|a| a == "--thorough") || std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
            let out_dir = std::env::var("VERIF_EVIDENCE").unwrap_or_else(|_| "/verif/evidence".into());
            let budget = std::env::var("VERIF_BUDGET")
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or(if thorough { 3600 } else { 300 });
            let progress = args.iter().position(|a| a == "--inner").map(|i| args[i + 1].clone().into());
            let inner = progress.is_some();
            let budget = Duration::from_secs(budget);
            let cfg = RunConfig { seed, thorough, out_dir: out_dir.into(), cases, budget, progress };
            if inner {
                engine::run(&prop, &cfg)
            } else {
                engine::supervise(&prop, &cfg, &args[1..])
            }
        }
        Some("one") => {
            let prop = find(args.get(2).unwrap_or_else(|| usage()));
            engine::run_one(&prop, args.get(3).unwrap_or_else(|| usage()))
        }
        Some("replay") => {
            let prop = find(args.get(2).unwrap_or_else(|| usage()));
            let text = std::fs::read_to_string(args.get(3).unwrap_or_else(|| usage())).unwrap();
            engine::replay(&prop, &text)
        }
        _ => usage(),
    };
    std::process::exit(code);
}
