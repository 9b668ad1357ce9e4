//! ksim: deterministic simulation of keramics with fault injection.

mod alloc;
mod case;
mod data;
mod env;
#[cfg(feature = "full")]
mod images;
mod props;
mod refhash;
mod rng;
mod runner;
mod sched;
mod stream;
mod streamops;
mod sysio;

use std::path::{Path, PathBuf};

use runner::Prop;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn find(id: &str) -> Option<&'static dyn Prop> {
    props::all().into_iter().find(|p| p.id() == id)
}

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
    let code = match cmd {
        "list" => {
            for p in props::all() {
                println!("{}", p.id());
            }
            0
        }
        "check" => {
            let Some(p) = args.get(2).and_then(|x| find(x)) else {
                eprintln!("unknown property");
                std::process::exit(2);
            };
            let seed = arg(&args, "--seed")
                .or_else(|| std::env::var("VERIF_SEED").ok())
                .and_then(|s| s.parse().ok())
                .unwrap_or(1u64);
            let tier = arg(&args, "--tier")
                .or_else(|| std::env::var("VERIF_TIER").ok())
                .unwrap_or_else(|| "quick".to_string());
            let thorough = tier == "thorough";
            let a = runner::CheckArgs {
                seed,
                thorough,
                dir: PathBuf::from(arg(&args, "--dir").unwrap_or_else(|| "/verif".to_string())),
                workers: arg(&args, "--workers").and_then(|s| s.parse().ok()).unwrap_or(8),
                runs: arg(&args, "--runs").and_then(|s| s.parse().ok()),
                cap_s: arg(&args, "--cap")
                    .and_then(|s| s.parse().ok())
                    .unwrap_or(if thorough { 720.0 } else { 240.0 }),
            };
            runner::check(p, &a)
        }
        "worker" => {
            let Some(p) = args.get(2).and_then(|x| find(x)) else {
                std::process::exit(2);
            };
            let n = |i: usize| args[i].parse::<u64>().unwrap();
            runner::worker(
                p,
                n(3),
                n(4),
                n(5),
                n(6),
                args[7].parse().unwrap(),
                args[8] == "1",
                Path::new(&args[9]),
                Path::new(&args[10]),
            )
        }
        "exec" | "replay" => {
            let Some(c) = args.get(2).and_then(|f| runner::load_case(Path::new(f))) else {
                eprintln!("cannot read case");
                std::process::exit(2);
            };
            let Some(p) = find(&c.prop) else {
                std::process::exit(2);
            };
            runner::exec_cmd(p, &c, cmd == "replay")
        }
        "case" => {
            // print the case of one run
            let p = find(&args[2]).expect("property");
            let c = runner::case_for(p, args[3].parse().unwrap(), args[4].parse().unwrap(), false);
            println!("{}", c.to_json());
            0
        }
        "hashes" => {
            // event log hash and outcome per run, for determinism checks
            let p = find(&args[2]).expect("property");
            let (seed, from, to): (u64, u64, u64) =
                (args[3].parse().unwrap(), args[4].parse().unwrap(), args[5].parse().unwrap());
            runner::install_panic_hook();
            for i in from..to {
                let c = runner::case_for(p, seed, i, false);
                let (r, e) = runner::exec(p, &c, false);
                println!(
                    "{i} {:016x} {} {}",
                    e.log_hash,
                    e.events,
                    r.map(|_| String::from("ok")).unwrap_or_else(|v| v.key)
                );
            }
            0
        }
        "survey" => {
            // every violation of a range of runs (driven by tools/survey.py)
            let p = find(&args[2]).expect("property");
            let n: Vec<u64> = args[3..7].iter().map(|x| x.parse().unwrap()).collect();
            runner::install_panic_hook();
            runner::start_watchdog();
            let mut i = n[1];
            while i < n[3] {
                println!("@ {i}");
                let c = runner::case_for(p, n[0], i, false);
                if let (Err(v), _) = runner::exec(p, &c, false) {
                    println!("! {i} {} | {}", v.key, v.detail.replace('\n', " "));
                }
                i += n[2];
            }
            0
        }
        _ => {
            eprintln!("usage: ksim list | check ID | replay FILE | case ID SEED RUN | hashes ID SEED FROM TO");
            2
        }
    };
    std::process::exit(code);
}
