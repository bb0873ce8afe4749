//! The program-level family: one run = one seeded schedule over the simulated chain.
use {
    crate::{
        gen, model,
        runner::{Outcome, Violation},
        world::*,
    },
    serde_derive::{Deserialize, Serialize},
    serde_json::{json, Value},
};

#[derive(Serialize, Deserialize)]
struct Case {
    config: Config,
    ops: Vec<Op>,
}

fn outcome(mut w: World, case: Case, property: &str) -> Outcome {
    w.finish();
    w.final_checks();
    let mut counters = w.stats.counters();
    let hit = counters.get(&format!("probe:{property}")).copied().unwrap_or(0);
    counters.retain(|k, _| !k.starts_with("probe:") || *k == format!("probe:{property}"));
    Outcome {
        violations: w
            .violations
            .iter()
            .map(|v| Violation {
                property: v.property.clone(),
                what: v.what.clone(),
                op: v.op,
            })
            .collect(),
        hash: w.state_hash(),
        nontrivial: hit > 0,
        counters,
        sim_seconds: w.stats.slots as f64 * 0.4,
        case: serde_json::to_value(&case).unwrap(),
    }
}

pub fn run_seed(property: &str, seed: u64) -> Outcome {
    let config = gen::config(seed);
    let mut w = World::new(&config);
    let mut g = gen::Gen::new(seed, gen::profile(property));
    let n = g.r.range(g.p.ops.0, g.p.ops.1);
    let mut ops = vec![];
    let mut go = |w: &mut World, op: Op| {
        w.run_op(&op);
        ops.push(op);
    };
    for _ in 0..n {
        let op = g.next(&w);
        go(&mut w, op);
    }
    for op in g.settle(&w) {
        go(&mut w, op);
    }
    for op in g.close_out(&w) {
        go(&mut w, op);
    }
    outcome(w, Case { config, ops }, property)
}

pub fn run_case(property: &str, case: &Value) -> Result<Outcome, String> {
    let case: Case = serde_json::from_value(case.clone()).map_err(|e| e.to_string())?;
    let mut w = World::new(&case.config);
    for op in &case.ops {
        w.run_op(op);
    }
    Ok(outcome(w, case, property))
}

/// Simpler variants of one operation, most drastic first.
pub fn simpler(op: &Value) -> Vec<Value> {
    let Ok(op) = serde_json::from_value::<Op>(op.clone()) else {
        return vec![];
    };
    let mut out: Vec<Op> = vec![];
    match &op {
        Op::CrashSweep(t) => {
            out.push(Op::Tx(t.clone()));
            simpler_tx(t, &mut |t| out.push(Op::CrashSweep(t)));
        }
        Op::Tx(t) => simpler_tx(t, &mut |t| out.push(Op::Tx(t))),
        Op::Slots(n) if *n > 1 => {
            out.push(Op::Slots(1));
            out.push(Op::Slots(n / 2));
        }
        Op::Epochs(n, o) => {
            if *o > 0 {
                out.push(Op::Epochs(*n, 0));
            }
            if *n > 1 {
                out.push(Op::Epochs(n - 1, *o));
            }
        }
        _ => {}
    }
    out.iter().map(|o| serde_json::to_value(o).unwrap()).collect()
}

fn simpler_tx(t: &TxOp, put: &mut dyn FnMut(TxOp)) {
    for i in 0..t.steps.len() {
        if t.steps.len() > 1 {
            let mut x = t.clone();
            x.steps.remove(i);
            put(x);
        }
    }
    let mut with = |f: &dyn Fn(&mut TxOp)| {
        let mut x = t.clone();
        f(&mut x);
        if x != *t {
            put(x);
        }
    };
    with(&|x| x.crash = None);
    with(&|x| x.copies = vec![0]);
    with(&|x| x.copies.truncate(1));
    with(&|x| x.age = 0);
    with(&|x| x.payer = 0);
    for (i, s) in t.steps.iter().enumerate() {
        match s {
            Step::Report(_) => {
                let mut each = |f: fn(&mut ReportOp)| {
                    with(&|x: &mut TxOp| {
                        if let Step::Report(r) = &mut x.steps[i] {
                            f(r)
                        }
                    })
                };
                each(|r| r.form = Form::Canonical);
                each(|r| r.twist = Twist::None);
                each(|r| r.proof = ProofForm::NORMAL);
                each(|r| r.dest = Addr::Fresh(0));
                each(|r| r.reporter = 0);
                each(|r| r.ev.muts.clear());
                each(|r| r.ev.swap = false);
                each(|r| r.ev.muts.truncate(1));
            }
            Step::Close(_) => {
                let mut each = |f: fn(&mut CloseOp)| {
                    with(&|x: &mut TxOp| {
                        if let Step::Close(r) = &mut x.steps[i] {
                            f(r)
                        }
                    })
                };
                each(|c| c.nested = false);
                each(|c| c.extra = false);
                each(|c| c.dest_readonly = false);
                each(|c| c.trailing = 0);
            }
            _ => {}
        }
    }
}

pub fn describe(case: &Value) -> Value {
    let Ok(c) = serde_json::from_value::<Case>(case.clone()) else {
        return Value::Null;
    };
    let ops: Vec<String> = c
        .ops
        .iter()
        .take(12)
        .map(|o| format!("{o:?}").chars().take(260).collect())
        .collect();
    json!({"config": c.config, "operations": c.ops.len(), "first_operations": ops})
}

pub const REAL: &[&str] = &[
    "solana-slashing-program (native build of /repo/program, real entry point)",
    "solana-svm 2.3.5 transaction processor (account loading, fees, rent checks, rollback, CPI)",
    "system program, compute budget program, ed25519 precompile, record program",
];
pub const STUBBED: &[&str] = &[
    "bank around the SVM: blockhash queue, status cache, clock, forks (chain.rs)",
    "BPF loader: the program runs as a native builtin, system variables and CPI enter through the syscall-stub seam (svm.rs)",
    "network, reporters and adversaries (world.rs, gen.rs)",
];

pub fn rule(property: &str) -> String {
    let what = match property {
        "S01" => "delivered a report attempt with at least one piece of evidence the accused had not signed",
        "S02" => "delivered a report attempt with two properly signed but non-conflicting pieces of evidence",
        "S03" => "delivered a canonical report of genuine evidence that the program was obliged to record",
        "S04" => "delivered a valid report of an already reported violation",
        "S05" => "recorded a report",
        "S06" => "delivered genuine evidence at or within one slot of an edge of the window, or outside it",
        "S07" => "delivered a close of a report younger than three epochs",
        "S08" => "delivered a close of a report at least three epochs old",
        "S09" => "landed a transaction",
        "S10" => "delivered genuine evidence with non-standard funding of the report address, or a donation to one",
        "S11" => "had an execution cut short at an injected crash point",
        "S12" => "delivered malformed instruction data, accounts, evidence or offsets",
        "S13" => "delivered evidence for a violation that had already been recorded once",
        "S14" => "landed a transaction while several reports existed, or touching several at once",
        _ => "",
    };
    format!(
        "A case is one seeded schedule of reporters, adversaries, closers, clock, forks, network and \
         runtime faults over the simulated chain; every transaction is compared with a reference \
         interpreter. It is non-trivial if it {what}; distinct ones are counted by the hash of the \
         whole operation, outcome and final-state trace."
    )
}

pub fn model_self_check() -> Result<(), String> {
    if model::program_id() != solana_slashing_program::id() {
        return Err("program id differs from the documented one".into());
    }
    Ok(())
}
