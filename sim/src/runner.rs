//! Seeded search over many simulated runs, minimisation, replay and evidence.
use {
    serde_derive::{Deserialize, Serialize},
    serde_json::{json, Value},
    std::{
        collections::{BTreeMap, BTreeSet},
        io::Write,
        path::{Path, PathBuf},
        process::{Command, Stdio},
        time::{Duration, Instant},
    },
};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Violation {
    pub property: String,
    pub what: String,
    pub op: usize,
}

pub struct Outcome {
    pub violations: Vec<Violation>,
    pub hash: u64,
    pub nontrivial: bool,
    pub counters: BTreeMap<String, u64>,
    pub sim_seconds: f64,
    /// Everything needed to run it again: {"config": .., "ops": [..]}.
    pub case: Value,
}

/// One simulated world with its own kind of schedules.
pub struct Family {
    pub run_seed: fn(&str, u64) -> Outcome,
    pub run_case: fn(&str, &Value) -> Result<Outcome, String>,
    pub simpler: fn(&Value) -> Vec<Value>,
    pub describe: fn(&Value) -> Value,
    pub rule: fn(&str) -> String,
    pub real: &'static [&'static str],
    pub stubbed: &'static [&'static str],
    /// Seeds in the quick tier, and a cap on wall-clock seconds.
    pub quick: (u64, u64),
    pub thorough: (u64, u64),
    pub level: fn(&str) -> &'static str,
    /// Whether a run that never ends or takes the process down violates this property.
    pub liveness: fn(&str) -> bool,
}

/// The shape of a violation: what stays the same while a trace is minimised.
pub fn class(what: &str) -> String {
    what.split(|c: char| c == ' ' || c == '\n')
        .map(|w| {
            if w.len() > 30 {
                "K".to_string()
            } else {
                w.chars().filter(|c| !c.is_ascii_digit()).collect()
            }
        })
        .collect::<Vec<_>>()
        .join(" ")
        .chars()
        .take(60)
        .collect()
}

fn find<'a>(o: &'a Outcome, property: &str) -> Option<&'a Violation> {
    o.violations.iter().find(|v| v.property == property)
}

#[derive(Default, Serialize, Deserialize)]
struct WorkerReport {
    runs: u64,
    nontrivial: BTreeSet<u64>,
    distinct: BTreeSet<u64>,
    counters: BTreeMap<String, u64>,
    sim_seconds: f64,
    rechecked: u64,
    diverged: Vec<u64>,
    found: Vec<Found>,
    sample: Option<Value>,
    finished: bool,
}

#[derive(Clone, Serialize, Deserialize)]
struct Found {
    seed: u64,
    violation: Violation,
    original_ops: usize,
    case: Value,
    hash: u64,
}

/// Drops and simplifies operations while a violation of the same class remains.
fn minimise(f: &Family, property: &str, o: Outcome, budget: Duration) -> (Value, Violation, u64) {
    let start = Instant::now();
    let v = find(&o, property).unwrap().clone();
    let want = class(&v.what);
    let config = o.case["config"].clone();
    let mut ops: Vec<Value> = o.case["ops"].as_array().unwrap().clone();
    let mut best = (v, o.hash);
    let attempt = |ops: &[Value]| -> Option<(Violation, u64)> {
        let case = json!({"config": config, "ops": ops});
        let o = (f.run_case)(property, &case).ok()?;
        let v = o
            .violations
            .iter()
            .find(|v| v.property == property && class(&v.what) == want)?;
        Some((v.clone(), o.hash))
    };
    let over = || start.elapsed() > budget;
    // The recorded case itself must reproduce; everything behind the violation is irrelevant.
    match attempt(&ops) {
        Some(b) => best = b,
        None => return (json!({"config": config, "ops": ops}), best.0, best.1),
    }
    let cut = best.0.op + 1;
    if cut < ops.len() {
        if let Some(b) = attempt(&ops[..cut]) {
            ops.truncate(cut);
            best = b;
        }
    }
    loop {
        let before = ops.len();
        let mut size = (ops.len() / 2).max(1);
        while !over() {
            let mut i = ops.len();
            while i > 0 && !over() {
                let lo = i.saturating_sub(size);
                let mut fewer = ops[..lo].to_vec();
                fewer.extend_from_slice(&ops[i..]);
                if let Some(b) = attempt(&fewer) {
                    ops = fewer;
                    best = b;
                }
                i = lo.min(ops.len());
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        let mut simplified = false;
        for i in 0..ops.len() {
            'again: loop {
                for c in (f.simpler)(&ops[i]) {
                    if over() {
                        break 'again;
                    }
                    if c == ops[i] {
                        continue;
                    }
                    let was = std::mem::replace(&mut ops[i], c);
                    match attempt(&ops) {
                        Some(b) => {
                            best = b;
                            simplified = true;
                            continue 'again;
                        }
                        None => ops[i] = was,
                    }
                }
                break;
            }
        }
        if over() || (ops.len() == before && !simplified) {
            break;
        }
    }
    (json!({"config": config, "ops": ops}), best.0, best.1)
}

pub fn worker(f: &Family, property: &str, first: u64, step: u64, count: u64, cap: u64, out: &Path) {
    let start = Instant::now();
    let mut r = WorkerReport::default();
    let save = |r: &WorkerReport| {
        let tmp = out.with_extension("tmp");
        std::fs::write(&tmp, serde_json::to_vec(r).unwrap()).unwrap();
        std::fs::rename(&tmp, out).unwrap();
    };
    let progress = out.with_extension("seed");
    let mut saved = Instant::now();
    for k in 0..count {
        if start.elapsed().as_secs() >= cap {
            break;
        }
        let seed = first + k * step;
        std::fs::write(&progress, seed.to_string()).unwrap();
        let o = (f.run_seed)(property, seed);
        r.runs += 1;
        r.sim_seconds += o.sim_seconds;
        r.distinct.insert(o.hash);
        if o.nontrivial {
            r.nontrivial.insert(o.hash);
            if r.sample.is_none() {
                r.sample = Some(json!({"seed": seed, "case": (f.describe)(&o.case)}));
            }
        }
        for (k, v) in &o.counters {
            *r.counters.entry(k.clone()).or_default() += v;
        }
        if k % 16 == 0 {
            // The same seed must give the same execution, to the last byte.
            r.rechecked += 1;
            let again = (f.run_seed)(property, seed);
            let from_case = (f.run_case)(property, &o.case);
            if again.hash != o.hash || from_case.map(|x| x.hash) != Ok(o.hash) {
                r.diverged.push(seed);
            }
        }
        if find(&o, property).is_some() {
            let original_ops = o.case["ops"].as_array().map_or(0, |a| a.len());
            let (case, violation, hash) = minimise(f, property, o, Duration::from_secs(40));
            r.found.push(Found {
                seed,
                violation,
                original_ops,
                case,
                hash,
            });
            save(&r);
            if r.found.len() >= 2 {
                break;
            }
        }
        if saved.elapsed().as_secs() >= 5 {
            save(&r);
            saved = Instant::now();
        }
    }
    r.finished = true;
    save(&r);
}

pub fn replay(f: &Family, file: &Path) -> i32 {
    let v: Value = serde_json::from_slice(&std::fs::read(file).expect("replay file")).unwrap();
    let property = v["property"].as_str().unwrap();
    if v["case"].is_null() {
        // A run that takes the process down: the seed is the trace.
        let seed = v["seed"].as_u64().unwrap();
        let o = (f.run_seed)(property, seed);
        say(&format!("seed {seed} ran to its end, state hash {:016x}", o.hash));
        return 0;
    }
    let o = (f.run_case)(property, &v["case"]).expect("replay case");
    let want = v["violation"]["what"].as_str().unwrap_or("");
    let mut code = 0;
    for x in &o.violations {
        if x.property == property {
            say(&format!("operation {}: {}", x.op, x.what));
            code = 1;
        }
    }
    let same = o
        .violations
        .iter()
        .any(|x| x.property == property && x.what == want);
    say(&format!(
        "state hash {:016x}, {}",
        o.hash,
        if same && Some(format!("{:016x}", o.hash).as_str()) == v["state_hash"].as_str() {
            "exactly as recorded"
        } else {
            "differs from the recording"
        }
    ));
    if code == 1 {
        say(&format!("VIOLATION property={property} replay={}", file.display()));
    }
    code
}

/// The program under test prints on stdout; our own lines go out through here.
fn say(s: &str) {
    let mut o = std::io::stdout().lock();
    let _ = writeln!(o, "{s}");
    let _ = o.flush();
}

fn known_findings(root: &Path, property: &str) -> Vec<(String, String)> {
    let mut out = vec![];
    let Ok(text) = std::fs::read_to_string(root.join("known-findings.txt")) else {
        return out;
    };
    let prefix = format!("finding: property={property} class=\"");
    for l in text.lines() {
        if let Some(rest) = l.strip_prefix(&prefix) {
            if let Some((class, what)) = rest.split_once("\" ") {
                out.push((class.to_string(), what.to_string()));
            }
        }
    }
    out
}

pub fn check(f: &Family, property: &str, thorough: bool, base: u64, root: &Path) -> i32 {
    let start = Instant::now();
    let (mut total, mut cap) = if thorough { f.thorough } else { f.quick };
    let env = |k: &str| std::env::var(k).ok().and_then(|v| v.parse::<u64>().ok());
    if let Some(n) = env("SLASHSIM_SEEDS") {
        total = n;
    }
    if let Some(n) = env("SLASHSIM_SECONDS") {
        cap = n;
    }
    let workers = std::thread::available_parallelism()
        .map_or(4, |n| n.get() as u64)
        .min(16);
    let dir: PathBuf = std::env::temp_dir().join(format!("slashsim-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let first = base.wrapping_mul(1_000_003) % (1 << 40);
    let exe = std::env::current_exe().unwrap();
    let mut kids = vec![];
    for w in 0..workers {
        let out = dir.join(format!("w{w}.json"));
        let count = total / workers + u64::from(w < total % workers);
        let child = Command::new(&exe)
            .args(["worker", property])
            .args([first + w, workers, count, cap].map(|n| n.to_string()))
            .arg(&out)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn()
            .expect("spawn worker");
        kids.push((child, out));
    }
    // A worker that makes no progress on one seed for a minute hangs.
    let mut reports = vec![];
    let mut broken: Vec<(u64, String)> = vec![];
    let hang = Duration::from_secs(120);
    let mut last: Vec<(String, Instant)> = kids.iter().map(|_| (String::new(), Instant::now())).collect();
    let mut done = vec![false; kids.len()];
    while !done.iter().all(|d| *d) {
        std::thread::sleep(Duration::from_millis(50));
        for (i, (child, out)) in kids.iter_mut().enumerate() {
            if done[i] {
                continue;
            }
            let seed = std::fs::read_to_string(out.with_extension("seed")).unwrap_or_default();
            match child.try_wait().unwrap() {
                Some(status) => {
                    done[i] = true;
                    let rep: Option<WorkerReport> = std::fs::read(&*out)
                        .ok()
                        .and_then(|b| serde_json::from_slice(&b).ok());
                    let finished = rep.as_ref().is_some_and(|r| r.finished);
                    reports.extend(rep);
                    if !status.success() || !finished {
                        broken.push((
                            seed.trim().parse().unwrap_or(0),
                            format!("the simulated process ended with {status}"),
                        ));
                    }
                }
                None => {
                    if seed != last[i].0 {
                        last[i] = (seed, Instant::now());
                    } else if last[i].1.elapsed() > hang {
                        let _ = child.kill();
                        let _ = child.wait();
                        done[i] = true;
                        reports.extend(
                            std::fs::read(&*out)
                                .ok()
                                .and_then(|b| serde_json::from_slice::<WorkerReport>(&b).ok()),
                        );
                        broken.push((
                            seed.trim().parse().unwrap_or(0),
                            format!("the simulated run did not end within {} s", hang.as_secs()),
                        ));
                    }
                }
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);

    let mut all = WorkerReport::default();
    let mut samples = vec![];
    for r in reports {
        all.runs += r.runs;
        all.sim_seconds += r.sim_seconds;
        all.rechecked += r.rechecked;
        all.nontrivial.extend(r.nontrivial);
        all.distinct.extend(r.distinct);
        all.diverged.extend(r.diverged);
        all.found.extend(r.found);
        for (k, v) in r.counters {
            *all.counters.entry(k).or_default() += v;
        }
        if samples.len() < 3 {
            samples.extend(r.sample);
        }
    }
    all.found.sort_by_key(|x| x.seed);
    let wall = start.elapsed().as_secs_f64();

    // Report each class of violation once, with the smallest trace.
    let replays = root.join("evidence").join("replays");
    let _ = std::fs::create_dir_all(&replays);
    let known = known_findings(root, property);
    let mut listed: BTreeSet<String> = BTreeSet::new();
    let mut by_class: BTreeMap<String, Found> = BTreeMap::new();
    for x in &all.found {
        let c = class(&x.violation.what);
        let n = |x: &Found| x.case["ops"].as_array().map_or(0, |a| a.len());
        match by_class.get(&c) {
            Some(y) if n(y) <= n(x) => {}
            _ => {
                by_class.insert(c, x.clone());
            }
        }
    }
    let mut code = 0;
    let mut written = vec![];
    for (c, x) in by_class {
        if let Some((_, what)) = known.iter().find(|(k, _)| *k == c) {
            listed.insert(what.clone());
            continue;
        }
        let file = replays.join(format!("{property}-{}.json", x.seed));
        let ops = x.case["ops"].as_array().map_or(0, |a| a.len());
        let body = json!({
            "property": property,
            "seed": x.seed,
            "violation": x.violation,
            "state_hash": format!("{:016x}", x.hash),
            "operations_before_minimisation": x.original_ops,
            "operations": ops,
            "replay": format!("bash /verif/run.sh replay {}", file.display()),
            "case": x.case,
        });
        std::fs::write(&file, serde_json::to_vec_pretty(&body).unwrap()).unwrap();
        // It must fail the same way in a fresh process.
        let again = Command::new(&exe)
            .args(["replay"])
            .arg(&file)
            .stderr(Stdio::null())
            .output();
        let exact = again.is_ok_and(|o| {
            o.status.code() == Some(1)
                && String::from_utf8_lossy(&o.stdout).contains("exactly as recorded")
        });
        say(&format!(
            "seed {}: {} [minimised from {} to {} operations, replay in a fresh process {}]",
            x.seed,
            x.violation.what,
            x.original_ops,
            ops,
            if exact { "identical" } else { "DIFFERS" }
        ));
        say(&format!("VIOLATION property={property} replay={}", file.display()));
        written.push(json!({"seed": x.seed, "what": x.violation.what, "replay": file, "operations": ops, "replays_identically": exact}));
        code = 1;
    }
    for (seed, what) in &broken {
        if (f.liveness)(property) {
            let file = replays.join(format!("{property}-{seed}-process.json"));
            let body = json!({"property": property, "seed": seed, "case": null, "violation": {"property": property, "what": what, "op": 0}});
            std::fs::write(&file, serde_json::to_vec_pretty(&body).unwrap()).unwrap();
            say(&format!("seed {seed}: {what}"));
            say(&format!("VIOLATION property={property} replay={}", file.display()));
            written.push(json!({"seed": seed, "what": what, "replay": file}));
            code = 1;
        } else {
            say(&format!("note: seed {seed}: {what}; that seed is undecided"));
        }
    }
    for w in &listed {
        say(&format!("KNOWN-FINDING: property={property} {w}"));
    }
    if !all.diverged.is_empty() && code == 0 {
        say(&format!("error: seeds {:?} did not repeat identically", all.diverged));
        code = 2;
    }
    let faults: BTreeMap<String, u64> = all
        .counters
        .iter()
        .filter_map(|(k, v)| Some((k.strip_prefix("fault:")?.to_string(), *v)))
        .collect();
    let other: BTreeMap<&String, &u64> = all
        .counters
        .iter()
        .filter(|(k, _)| !k.starts_with("fault:"))
        .collect();
    let evidence = json!({
        "property": property,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": base,
        "level": (f.level)(property),
        "coverage": {
            "evaluations": all.runs,
            "distinct_nontrivial": all.nontrivial.len(),
            "rule": (f.rule)(property),
            "samples": samples,
            "simulated_runs": all.runs,
            "seeds": {"first": first, "count": all.runs, "planned": total},
            "seeds_per_hour": (all.runs as f64 / wall * 3600.0) as u64,
            "simulated_seconds": all.sim_seconds as u64,
            "faults_injected": faults,
            "distinct_executions": all.distinct.len(),
            "distinct_executions_measure": "hash over every operation, outcome and the final state of the run",
            "counters": other,
            "determinism_rechecks": all.rechecked,
            "determinism_divergences": all.diverged.len(),
            "undecided_seeds": broken.len(),
            "real_components": f.real,
            "stubbed_components": f.stubbed,
            "known_findings_seen": listed,
        },
        "assumptions": [
            "a clean batch of seeds is evidence, not proof",
            "the program is exercised as a native build, not as BPF bytecode"
        ],
        "wall_s": (wall * 100.0).round() / 100.0,
        "violations": written,
    });
    let path = root.join("evidence").join(format!("{property}.json"));
    std::fs::write(&path, serde_json::to_vec_pretty(&evidence).unwrap()).unwrap();
    if all.runs == 0 && code == 0 {
        say("error: no run completed");
        code = 2;
    }
    if code == 0 {
        say(&format!(
            "{property}: held in {} runs ({} distinct and non-trivial) in {wall:.1} s",
            all.runs,
            all.nontrivial.len()
        ));
    }
    code
}
