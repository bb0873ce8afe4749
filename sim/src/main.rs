#![allow(deprecated)]
mod chain;
mod cli_gen;
mod cli_sim;
mod cli_world;
mod cluster;
mod evidence;
mod gen;
mod model;
mod program_sim;
mod rng;
mod runner;
mod seam;
mod shredgen;
mod svm;
mod world;

use {runner::Family, std::path::PathBuf};

fn family(property: &str) -> Family {
    if property.starts_with('C') {
        return Family {
            run_seed: cli_sim::run_seed,
            run_case: cli_sim::run_case,
            simpler: cli_sim::simpler,
            describe: cli_sim::describe,
            rule: cli_sim::rule,
            real: cli_sim::REAL,
            stubbed: cli_sim::STUBBED,
            quick: (match property {
                "C04" => 3200,
                "C05" | "C06" | "C07" => 8000,
                _ => 1600,
            }, 90),
            thorough: (100_000, 780),
            level: |_| "exploration",
            liveness: |p| matches!(p, "C02" | "C05" | "C06" | "C07" | "C09"),
        };
    }
    Family {
        run_seed: program_sim::run_seed,
        run_case: program_sim::run_case,
        simpler: program_sim::simpler,
        describe: program_sim::describe,
        rule: program_sim::rule,
        real: program_sim::REAL,
        stubbed: program_sim::STUBBED,
        quick: if property == "S11" { (1600, 60) } else { (3200, 60) },
        thorough: (400_000, 780),
        level: |p| if p == "S11" { "fault_enumeration" } else { "exploration" },
        liveness: |p| matches!(p, "S03" | "S11" | "S12"),
    }
}

fn norm(s: &str) -> String {
    runner::class(s)
}

/// Development aid: a few seeds in this process, violations of all properties by class.
fn scan(prop: &str, n: u64) {
    let f = family(prop);
    let t = std::time::Instant::now();
    let mut counters = std::collections::BTreeMap::<String, u64>::new();
    let mut seen = std::collections::BTreeMap::<String, (u32, String)>::new();
    let mut nontrivial = 0;
    for seed in 1..=n {
        let o = (f.run_seed)(prop, seed);
        nontrivial += o.nontrivial as u64;
        for (k, v) in o.counters {
            *counters.entry(k).or_default() += v;
        }
        for v in o.violations {
            let e = seen.entry(format!("{} {}", v.property, norm(&v.what))).or_default();
            e.0 += 1;
            e.1 = format!("seed {seed} op {}: {}", v.op, v.what);
        }
    }
    eprintln!("{prop} {:?}, {nontrivial} of {n} non-trivial", t.elapsed());
    if std::env::var_os("SLASHSIM_COUNTERS").is_some() {
        eprintln!("{counters:#?}");
    }
    for (k, v) in seen {
        eprintln!("{k} {v:?}");
    }
}

/// Development aid: the profiles of several properties in turn, up to the first violation of any.
fn hunt(props: &[String], n: u64) -> i32 {
    for seed in 1..=n {
        for prop in props {
            if let Some(v) = (family(prop).run_seed)(prop, seed).violations.first() {
                println!("{} by {prop} {seed}: {}", v.property, v.what);
                return 1;
            }
        }
    }
    0
}

fn main() {
    svm::install();
    let args: Vec<String> = std::env::args().collect();
    let root = PathBuf::from(std::env::var("SLASHSIM_ROOT").unwrap_or_else(|_| "/verif".into()));
    let num = |i: usize| args[i].parse::<u64>().unwrap();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let thorough = match args.get(3).map(|s| s.as_str()) {
                Some(t) => t == "thorough",
                None => std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough"),
            };
            let seed = std::env::var("VERIF_SEED")
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or(1);
            if let Err(e) = program_sim::model_self_check() {
                println!("error: {e}");
                std::process::exit(2);
            }
            runner::check(&family(&args[2]), &args[2], thorough, seed, &root)
        }
        Some("worker") => {
            let f = family(&args[2]);
            runner::worker(&f, &args[2], num(3), num(4), num(5), num(6), &PathBuf::from(&args[7]));
            0
        }
        Some("replay") => {
            let v: serde_json::Value =
                serde_json::from_slice(&std::fs::read(&args[2]).expect("replay file")).unwrap();
            let f = family(v["property"].as_str().unwrap());
            runner::replay(&f, &PathBuf::from(&args[2]))
        }
        Some("show") => {
            // Development aid: one seed in full.
            if std::env::var_os("SLASHSIM_TWICE").is_some() {
                (family(&args[2]).run_seed)(&args[2], num(3));
                eprintln!("SECOND");
            }
            let o = (family(&args[2]).run_seed)(&args[2], num(3));
            eprintln!("{}", serde_json::to_string_pretty(&(family(&args[2]).describe)(&o.case)).unwrap());
            for v in &o.violations {
                eprintln!("{} op {}: {}", v.property, v.op, v.what);
            }
            0
        }
        Some("ledger") => {
            cli_world::make_ledger(&PathBuf::from(&args[2]), &args[3..]);
            0
        }
        Some("scan") => {
            scan(&args[2], num(3));
            0
        }
        Some("hunt") => hunt(&args[3..], num(2)),
        _ => {
            eprintln!("usage: slashsim check PROPERTY [quick|thorough] | replay FILE | scan PROPERTY SEEDS");
            2
        }
    };
    std::process::exit(code);
}
