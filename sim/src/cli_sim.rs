//! Runs one seeded schedule of the client world and judges it.
use {
    crate::{
        cli_gen,
        cli_world::*,
        cluster::Act,
        model,
        runner::Outcome,
    },
    serde_derive::{Deserialize, Serialize},
    serde_json::{json, Value},
    solana_sdk::{
        account::{AccountSharedData, ReadableAccount},
        pubkey::Pubkey,
    },
    std::collections::{BTreeMap, BTreeSet},
};

#[derive(Serialize, Deserialize)]
struct Case {
    config: Config,
    ops: Vec<Op>,
}

/// The world just before a run operation.
struct Before {
    accounts: BTreeMap<Pubkey, AccountSharedData>,
    reports: Reports,
    epoch: u64,
    slot: u64,
    ms: u64,
    /// Somebody planted accounts, odd evidence or unpayable destinations.
    special: bool,
}

pub fn run_seed(property: &str, seed: u64) -> Outcome {
    let (config, ops) = cli_gen::case(property, seed);
    execute(Case { config, ops }, property)
}

pub fn run_case(property: &str, case: &Value) -> Result<Outcome, String> {
    Ok(execute(serde_json::from_value(case.clone()).map_err(|e| e.to_string())?, property))
}

/// Each run has a thread of its own: thread-local state, like the keys of hash maps, starts anew.
/// State of the process that libraries draw from the entropy once is drawn in a fixed first run.
fn execute(case: Case, property: &str) -> Outcome {
    static FIRST: std::sync::Once = std::sync::Once::new();
    FIRST.call_once(|| {
        for (p, checked) in [("C01", false), ("C05", false), ("C01", true), ("C05", true)] {
            let (mut config, ops) = cli_gen::case(p, 1);
            config.checked = checked;
            on_thread(Case { config, ops }, p);
        }
    });
    on_thread(case, property)
}

fn on_thread(case: Case, property: &str) -> Outcome {
    std::thread::scope(|s| {
        let t = std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, || execute_here(case, property));
        match t.expect("thread").join() {
            Ok(o) => o,
            Err(e) => std::panic::resume_unwind(e),
        }
    })
}

fn execute_here(case: Case, property: &str) -> Outcome {
    enter(&case.config);
    let mut settled = None;
    for (i, op) in case.ops.iter().enumerate() {
        with(|w| w.op_no = i);
        match op {
            Op::Env(e) => with(|w| w.env(e)),
            Op::Run(specs) => {
                let before = with(|w| {
                    w.cluster.flush();
                    before(w)
                });
                run(specs);
                with(|w| {
                    judge(w, &before);
                    settled = Some((i, before.slot));
                });
            }
        }
        with(|w| w.watch_reports());
    }
    let last = case.ops.len().wrapping_sub(1);
    with(|w| {
        if let (Some((i, slot)), Some(Op::Run(specs))) = (settled, case.ops.last()) {
            if i == last {
                convergence(w, specs, slot, &case.ops);
            }
        }
        let accounts: Vec<u8> = w
            .cluster
            .bank
            .st
            .accounts
            .iter()
            .flat_map(|(k, a)| {
                let h = model::sha(&[k.as_ref(), &a.lamports().to_le_bytes(), a.data(), a.owner().as_ref()]);
                h.to_vec()
            })
            .collect();
        let h = model::sha(&[&accounts]);
        w.note(&h);
        for m in std::mem::take(&mut w.cluster.unanswered) {
            w.count(&format!("unanswered method {m}"), 1);
        }
        let (landed, expired, forks) = (w.cluster.landed.len() as u64, w.cluster.expired, w.cluster.forks);
        w.count("transactions landed", landed);
        w.count("transactions expired", expired);
        w.count("fork switches", forks);
    });
    let w = leave();
    let probe = format!("probe:{property}");
    let mut counters = w.counters.clone();
    counters.retain(|k, _| !k.starts_with("probe:") || *k == probe);
    Outcome {
        nontrivial: counters.get(&probe).is_some_and(|n| *n > 0),
        violations: w.violations.clone(),
        hash: w.hash,
        counters,
        sim_seconds: w.cluster.slots_seen as f64 * 0.4,
        case: serde_json::to_value(&case).unwrap(),
    }
}

fn before(w: &mut World) -> Before {
    let special = !w.junk.is_empty() || w.recorded.iter().any(|r| !r.payable || r.padded);
    Before {
        accounts: w.cluster.bank.st.accounts.clone(),
        reports: w.cluster.reports(),
        epoch: w.cluster.bank.schedule.get_epoch(w.cluster.confirmed_slot()),
        slot: w.cluster.slot(),
        ms: w.cluster.ms,
        special,
    }
}

fn judge(w: &mut World, b: &Before) {
    let running = std::mem::take(&mut w.running);
    for r in &running {
        if std::env::var_os("SLASHSIM_TRACE").is_some() {
            eprintln!("--- {:?}\n{}\n{}\n{:?}", r.spec, strip(&r.out), strip(&r.err), r.end);
            for q in &r.reqs {
                eprintln!("{:>8} {} {:?} {:?} fault {:?} failed {}", q.ms, q.method, q.arg, q.acts, q.fault, q.failed);
            }
            eprintln!("sleeps {:?}", r.sleeps);
        }
        let ctx = Ctx::new(w, r, &running);
        match &r.spec.cmd {
            Cmd::Attach { .. } => attach(w, b, r, &ctx),
            Cmd::Close { .. } => close(w, b, r, &ctx),
            Cmd::Display { .. } => display(w, b, r, &ctx),
        }
        if r.spec.dry_run {
            dry(w, r);
        }
        w.count(
            match &r.end {
                Some(End::Ok(_)) => "clients that ended well",
                Some(End::Err(_)) => "clients that ended with an error",
                Some(End::Panic(_)) => "clients that panicked",
                Some(End::Killed) => "clients killed",
                _ => "clients stuck",
            },
            1,
        );
    }
    // Nothing moves while only dry runs act.
    let still = running.iter().all(|r| r.spec.dry_run && r.spec.env.is_empty());
    if still {
        let after = &w.cluster.bank.st.accounts;
        let moved: Vec<String> = b
            .accounts
            .keys()
            .chain(after.keys())
            .filter(|k| b.accounts.get(k) != after.get(k))
            .filter(|k| after.get(k).or(b.accounts.get(k)).is_none_or(|a| *a.owner() != solana_sdk::sysvar::id()))
            .map(|k| k.to_string())
            .collect();
        if !moved.is_empty() {
            w.fail("C04", format!("a dry run changed accounts {moved:?}"));
        }
    }
    if running.len() > 1 || running.iter().any(|r| r.end == Some(End::Killed)) {
        w.count("probe:C08", 1);
    }
    spoiled(w, &running);
    w.running = running;
}

/// What holds for one instance's run.
struct Ctx {
    /// Alone, undisturbed, for real.
    quiet: bool,
    alone: bool,
    /// Everything planned to happen meanwhile, whichever instance it is tied to.
    events: Vec<Env>,
    faults: usize,
    epoch_end: u64,
}
impl Ctx {
    fn new(w: &World, r: &Running, all: &[Running]) -> Self {
        let alone = all.len() == 1;
        let s = &r.spec;
        let faults = r.reqs.iter().filter(|q| q.fault.is_some()).count();
        Self {
            quiet: alone && faults == 0 && s.crash.is_none() && s.env.is_empty() && !s.dry_run,
            alone,
            events: all.iter().flat_map(|r| r.spec.env.iter().map(|e| e.1.clone())).collect(),
            faults,
            epoch_end: w.cluster.bank.schedule.get_epoch(w.cluster.slot()),
        }
    }
}

fn describe_end(r: &Running) -> String {
    match &r.end {
        Some(End::Ok(s)) => format!("ended well: {}", strip(s).trim()),
        Some(End::Err(s)) => format!("ended with error: {s}"),
        Some(End::Panic(s)) => format!("panicked: {s}"),
        Some(End::Killed) => "was killed".into(),
        Some(End::Stuck) => "never ended".into(),
        None => "did not start".into(),
    }
}

/// Whole numbers in a text.
fn numbers(s: &str) -> Vec<u64> {
    s.split(|c: char| !c.is_ascii_alphanumeric()).filter_map(|t| t.parse().ok()).collect()
}
/// Numbers, including those glued to words (`slot5`).
fn any_numbers(s: &str) -> BTreeSet<u64> {
    s.split(|c: char| !c.is_ascii_digit()).filter_map(|t| t.parse().ok()).collect()
}

fn first_number(s: &str) -> Option<u64> {
    numbers(s).first().copied()
}

/// Values printed behind a label, e.g. `Violation Slot: 5`.
fn labelled<'a>(text: &'a str, label: &str) -> Vec<&'a str> {
    text.lines()
        .filter_map(|l| l.trim().strip_prefix(label))
        .map(|v| v.trim().trim_start_matches(':').trim())
        .collect()
}

fn in_window(w: &World, slot: u64, from: u64, to: u64) -> bool {
    slot <= from && to <= slot + w.cfg.slots_per_epoch
}
fn never_in_window(w: &World, slot: u64, from: u64, to: u64) -> bool {
    slot > to || from > slot + w.cfg.slots_per_epoch
}

fn attach(w: &mut World, b: &Before, r: &Running, ctx: &Ctx) {
    let Cmd::Attach { start, end, reporter, dest, continuous, .. } = &r.spec.cmd else { return };
    let s = &r.spec;
    let human = matches!(s.out, Out::Display | Out::Verbose);
    let lo = start.unwrap_or(0);
    let hi = end.unwrap_or(u64::MAX);
    let in_range = |slot: u64| slot >= lo && slot <= hi;
    let seen: Vec<LedgerEntry> = w.ledger.iter().filter(|e| e.ms <= r.begin_ms).cloned().collect();
    let after = w.cluster.reports();
    let done = w.done_by(r);
    let slot_now = w.cluster.slot();
    let mine: Vec<u64> = done
        .iter()
        .filter_map(|(_, a)| match a {
            Act::Report { slot, .. } => Some(*slot),
            _ => None,
        })
        .collect();
    let had = |w: &World, slot: u64| b.reports.contains_key(&w.report_of_slot(slot));
    let has = |w: &World, slot: u64| after.contains_key(&w.report_of_slot(slot)) || had(w, slot);
    let killed = matches!(r.end, Some(End::Killed) | None);
    let out = format!("{}\n{}", strip(&r.out), if let Some(End::Ok(s)) = &r.end { strip(s) } else { String::new() });

    if !s.dry_run {
        if let Some(End::Panic(p)) = &r.end {
            w.fail("C02", format!("attach panicked: {p}"));
        }
        if r.end == Some(End::Stuck) {
            w.fail("C02", "attach never ended".into());
        }
    } else if let Some(End::Panic(p)) = &r.end {
        w.fail("C02", format!("dry attach panicked: {p}"));
    }

    // Requests concern only what the user asked for.
    if !s.dry_run {
        let mut sent: BTreeMap<u64, BTreeSet<String>> = BTreeMap::new();
        for q in &r.reqs {
            for a in &q.acts {
                if let Act::Report { slot, .. } = a {
                    sent.entry(*slot).or_default().insert(q.arg.clone());
                }
            }
        }
        for (slot, sigs) in &sent {
            if !in_range(*slot) {
                w.fail("C01", format!("attach submitted a report for slot {slot} outside the requested range"));
            } else if had(w, *slot) {
                w.fail("C01", format!("attach submitted a report for slot {slot}, which was already reported"));
            } else if !w.ledger.iter().any(|e| e.dup.slot == *slot) {
                w.fail("C01", format!("attach submitted a report for slot {slot}, which is no duplicate in the ledger"));
            } else if ctx.quiet && continuous.is_none() && sigs.len() > 1 {
                w.fail("C01", format!("attach submitted {} reports for slot {slot}", sigs.len()));
            }
        }
    }
    let payer = if s.payer2 { w.person(PAYER2) } else { w.person(PAYER) };
    let todo: Vec<&LedgerEntry> = seen.iter().filter(|e| in_range(e.dup.slot) && !had(w, e.dup.slot)).collect();
    let rent = &w.cluster.bank.rent;
    let need = (rent.minimum_balance(model::MAX_REPORT_LEN) + rent.minimum_balance(4096) + 200_000) * (todo.len() as u64 + 1);
    let solvent = b.accounts.get(&payer).is_some_and(|a| a.lamports() > need);

    // Anything recorded is made out as requested, whatever went wrong around it.
    let who = reporter.map_or(w.person(PAYER), |p| w.person(p));
    let to = dest.map_or(w.person(PAYER), |p| w.person(p));
    for slot in &mine {
        let addr = w.report_of_slot(*slot);
        let Some(d) = after.get(&addr).and_then(|(_, d)| model::decode_report(d)) else { continue };
        let node = w.node_of_slot(*slot);
        let (h, s1, s2) = d;
        let want = model::Header { version: 1, reporter: who, destination: to, epoch: h.epoch, node, slot: *slot, kind: 1 };
        if h != want {
            w.fail("C01", format!("attach reported slot {slot} as {h:?}, not {want:?}"));
        }
        let genuine = w
            .ledger
            .iter()
            .any(|e| e.dup.slot == *slot && (e.shreds == [s1.clone(), s2.clone()] || e.shreds == [s2.clone(), s1.clone()]));
        if !genuine && !ctx.events.iter().any(|e| matches!(e, Env::Dup(_))) {
            w.fail("C01", format!("attach reported slot {slot} with shreds that are not those of the ledger"));
        }
    }

    if ctx.quiet && continuous.is_none() && solvent {
        match &r.end {
            Some(End::Ok(text)) => {
                let n = first_number(&strip(text)).or_else(|| first_number(out.lines().last().unwrap_or("")));
                if n != Some(mine.len() as u64) {
                    w.fail("C01", format!("attach announced {n:?} violations and recorded {}", mine.len()));
                }
            }
            _ => {
                let t = describe_end(r);
                w.fail("C01", format!("an undisturbed attach {t}"));
            }
        }
        let mut expected = 0;
        for e in &seen {
            let slot = e.dup.slot;
            if in_range(slot) && e.provable && in_window(w, slot, b.slot, slot_now) && !had(w, slot) {
                expected += 1;
                if !mine.contains(&slot) {
                    w.fail("C01", format!("attach left slot {slot} unreported: {:?}", e.dup.kind));
                }
            }
            if mine.contains(&slot) && (!e.possible || never_in_window(w, slot, b.slot, slot_now)) {
                w.fail("C01", format!("attach got slot {slot} recorded, which cannot be: {:?}", e.dup.kind));
            }
        }
        let created: BTreeSet<Pubkey> = r
            .reqs
            .iter()
            .flat_map(|q| q.acts.iter())
            .filter_map(|a| if let Act::CreateEvidence(k) = a { Some(*k) } else { None })
            .collect();
        if created.len() > todo.len() {
            let (c, t) = (created.len(), todo.len());
            w.fail("C01", format!("attach created {c} evidence accounts for {t} unreported duplicates in range"));
        }
        if expected > 0 {
            w.count("probe:C01", 1);
        }
        w.count("undisturbed attach runs", 1);
        w.count("duplicates reported undisturbed", expected);
    }

    // Every visible duplicate is reported or announced as failed.
    let scanned = match continuous {
        None => matches!(r.end, Some(End::Ok(_)) | Some(End::Err(_)) | Some(End::Panic(_))),
        Some(_) => !r.sleeps.is_empty(),
    };
    let faulted = ctx.faults > 0;
    let began = r.reqs.iter().any(|q| q.method == "sendTransaction");
    let gave_up_early = matches!(r.end, Some(End::Err(_))) && faulted && !began;
    if !s.dry_run && scanned && human && s.crash.is_none() && !gave_up_early {
        let failed = any_numbers(&strip(&r.err));
        let mut in_sight = 0;
        let mut bad = 0;
        for e in &seen {
            let slot = e.dup.slot;
            if !in_range(slot) || (w.ledger.iter().any(|x| x.dup.slot == slot && x.ms > r.begin_ms)) {
                continue;
            }
            in_sight += 1;
            let ever = has(w, slot)
                || w.cluster.landed.iter().any(|l| {
                    l.status.is_ok() && l.parsed.iter().any(|a| matches!(a, Act::Report { slot: x, node, .. } if *x == slot && *node == w.node_of_slot(slot)))
                });
            if !ever {
                bad += 1;
            }
            if !ever && !failed.contains(&slot) {
                let t = describe_end(r);
                w.fail("C02", format!("attach neither reported slot {slot} nor announced it as failed ({:?}); it {t}", e.dup.kind));
            }
        }
        if in_sight > 1 && (bad > 0 || faulted) {
            w.count("probe:C02", 1);
        }
    }
    // A retry it suggests can be typed in and concerns an unreported slot.
    let err = strip(&r.err);
    let words: Vec<&str> = err.split_whitespace().collect();
    for p in words.windows(2) {
        if (p[0].contains("--start-slot") || p[0].contains("--end-slot")) && (!p[0].starts_with("--") || p[1].parse::<u64>().is_err()) {
            w.fail("C02", format!("attach suggests a retry nobody can run: {} {}", p[0], p[1]));
        }
    }
    // Claims are true.
    let ever: BTreeSet<u64> = w.ever_by(r).iter().filter_map(|a| if let Act::Report { slot, .. } = a { Some(*slot) } else { None }).collect();
    if !s.dry_run && !killed {
        if let Some(End::Ok(text)) = &r.end {
            if let Some(n) = first_number(&strip(text)) {
                if n > ever.len() as u64 {
                    w.fail("C02", format!("attach claims {n} reported violations and got {} recorded", mine.len()));
                }
            }
        }
        for v in labelled(&out, "Violation Slot:") {
            let Ok(slot) = v.parse::<u64>() else { continue };
            if !ever.contains(&slot) && !had(w, slot) {
                w.fail("C02", format!("attach shows a report for slot {slot}, which does not exist"));
            }
        }
    }

    // Evidence is put on chain once per slot that needs it, whatever goes wrong.
    let rewound = ctx.events.iter().any(|e| matches!(e, Env::Fork { .. } | Env::Close { .. }));
    if !s.dry_run && !rewound {
        let known: BTreeSet<u64> = w.ledger.iter().map(|e| e.dup.slot).filter(|x| in_range(*x)).collect();
        let free = known.iter().filter(|x| !had(w, **x)).count();
        let put: BTreeSet<Pubkey> = r
            .reqs
            .iter()
            .flat_map(|q| q.acts.iter())
            .filter_map(|a| if let Act::CreateEvidence(k) = a { Some(*k) } else { None })
            .collect();
        if put.len() > free {
            let n = put.len();
            w.fail("C01", format!("attach submitted evidence {n} times for {free} unreported duplicates in range, of {} in all", known.len()));
        }
        if free < known.len() && ctx.faults > 0 {
            w.count("reported slots met under faults", (known.len() - free) as u64);
        }
    }
    // Closings it announces took place, at least on one fork.
    if !s.dry_run {
        let closed: BTreeSet<Pubkey> =
            w.ever_by(r).iter().filter_map(|a| if let Act::CloseEvidence(k) = a { Some(*k) } else { None }).collect();
        let said = strip(&r.out).matches("Closed proof account").count();
        if said > closed.len() {
            w.fail("C03", format!("attach announced {said} closed evidence accounts, {} were", closed.len()));
        }
        w.count("closings announced", said as u64);
    }

    leftovers(w, b, r, ctx, &done, payer);
    if continuous.is_some() {
        watch(w, b, r, ctx, solvent);
    }
}

/// C03: what became of the evidence accounts.
fn leftovers(w: &mut World, b: &Before, r: &Running, ctx: &Ctx, done: &[(u64, Act)], payer: Pubkey) {
    let s = &r.spec;
    let Cmd::Attach { continuous, .. } = &s.cmd else { return };
    if s.dry_run || s.crash.is_some() {
        return;
    }
    let finished = match continuous {
        None => matches!(r.end, Some(End::Ok(_)) | Some(End::Err(_)) | Some(End::Panic(_))),
        Some(_) => !r.sleeps.is_empty(),
    };
    if !finished {
        return;
    }
    let until = match continuous {
        None => u64::MAX,
        Some(_) => r.sleeps.last().unwrap().0,
    };
    let created: BTreeMap<Pubkey, u64> = done
        .iter()
        .filter_map(|(ms, a)| match a {
            Act::CreateEvidence(k) if *ms < until => Some((*k, *ms)),
            _ => None,
        })
        .collect();
    if created.is_empty() {
        return;
    }
    w.count("probe:C03", 1);
    w.count("evidence accounts created", created.len() as u64);
    let there = w.cluster.evidence_accounts();
    let left: Vec<Pubkey> = created.keys().filter(|k| there.contains(k)).copied().collect();
    if left.is_empty() {
        return;
    }
    // A payer without the fee, or a jump over the life of a blockhash, defeats any closing.
    let floor = w.cluster.bank.rent.minimum_balance(0) + 20_000;
    let poor = |a: Option<&AccountSharedData>| a.is_none_or(|a| a.lamports() < floor);
    let broke = poor(w.cluster.bank.st.accounts.get(&payer)) || poor(b.accounts.get(&payer));
    let jumps = ctx.events.iter().any(|e| matches!(e, Env::Epochs(_) | Env::Slots(_) | Env::Balance(_) | Env::Fork { reforward: false }));
    if broke || jumps {
        w.count("evidence accounts excusably left", left.len() as u64);
        return;
    }
    let first_close = |k: &Pubkey| r.reqs.iter().find(|q| q.acts.contains(&Act::CloseEvidence(*k))).map(|q| q.ms);
    // An account that came into being only after somebody had tried to close it.
    let slack = (w.cfg.lag + 3) * crate::cluster::MS_PER_SLOT;
    let late = left.iter().filter(|k| first_close(k).is_some_and(|t| created[*k] + slack > t)).count();
    let from = if continuous.is_some() {
        0
    } else {
        let other = r.reqs.iter().rposition(|q| q.method == "sendTransaction" && !q.acts.iter().any(|a| matches!(a, Act::CloseEvidence(_))));
        let close = r.reqs.iter().position(|q| q.acts.iter().any(|a| matches!(a, Act::CloseEvidence(_))));
        other.unwrap_or(0).min(close.unwrap_or(usize::MAX))
    };
    let faults = r.reqs[from..].iter().filter(|q| q.fault.is_some()).count();
    if left.len() > late + faults {
        let t = describe_end(r);
        let tried = left.iter().filter(|k| first_close(k).is_some()).count();
        w.fail(
            "C03",
            format!(
                "attach left {} of {} evidence accounts behind ({tried} tried) though the cluster refused {faults} closing requests; it {t}",
                left.len(),
                created.len()
            ),
        );
    }
}

/// C09: the continuous watch.
fn watch(w: &mut World, b: &Before, r: &Running, ctx: &Ctx, solvent: bool) {
    let Cmd::Attach { continuous: Some(n), horizon, start, .. } = &r.spec.cmd else { return };
    if r.spec.dry_run || r.spec.crash.is_some() {
        return;
    }
    let interval = if *n == 0 { 4 * 3600 } else { *n } * 1000;
    let stop = r.begin_ms + horizon * 1000;
    // A fault while still starting up may stop it.
    let first_scan = r.reqs.iter().position(|q| q.kind == Kind::Leaders).unwrap_or(usize::MAX);
    let startup = r.reqs.iter().take(first_scan.min(2)).any(|q| q.fault.is_some());
    if startup {
        return;
    }
    match &r.end {
        Some(End::Killed) => {}
        Some(End::Err(_)) if r.over > 0 => {}
        Some(End::Stuck) => {}
        _ => {
            let t = describe_end(r);
            w.fail("C09", format!("the watch ended {} s early: it {t}", stop.saturating_sub(r.end_ms) / 1000));
            return;
        }
    }
    let busy = 120_000 * (w.ledger.len() as u64 + 1 + ctx.faults as u64)
        + r.reqs.iter().map(|q| if let Some(Fault::Stall(ms)) = q.fault { ms } else { 0 }).sum::<u64>();
    let mut awake = r.begin_ms;
    for (at, len) in &r.sleeps {
        if *len != interval {
            w.fail("C09", format!("the watch waited {} s, not the requested {} s", len / 1000, interval / 1000));
        }
        if *at > awake + busy {
            w.fail("C09", format!("a scan took {} s", (at - awake) / 1000));
        }
        awake = at + len;
    }
    if stop > awake + busy + 1000 {
        w.fail("C09", format!("no scan during the last {} s of the watch", (stop - awake) / 1000));
    }
    if ctx.events.iter().any(|e| matches!(e, Env::Epochs(_) | Env::Slots(_) | Env::Balance(_))) {
        return;
    }
    // New duplicates: reported by the end of the first scan after they appeared.
    let reports: Vec<(u64, u64)> = w
        .done_by(r)
        .iter()
        .filter_map(|(ms, a)| if let Act::Report { slot, .. } = a { Some((*slot, *ms)) } else { None })
        .collect();
    let after = w.cluster.reports();
    let slot_now = w.cluster.slot();
    let mut checked = 0;
    for e in w.ledger.clone() {
        let slot = e.dup.slot;
        let earlier = w.ledger.iter().filter(|x| x.ms <= e.ms && x.dup.slot != slot).map(|x| x.dup.slot).max();
        let fresh = e.ms <= r.begin_ms || earlier.is_none_or(|m| slot > m);
        if !fresh || !e.provable || start.is_some_and(|s| slot < s) || slot_now > slot + w.cfg.slots_per_epoch || !solvent {
            continue;
        }
        // First scan that begins after it appeared, and where that scan ends.
        let mut begin = r.begin_ms;
        let mut scan = None;
        for (at, len) in &r.sleeps {
            if e.ms <= begin {
                scan = Some((begin, *at));
                break;
            }
            begin = at + len;
        }
        let Some((from, till)) = scan else { continue };
        if w.slot_at(from) < slot {
            continue;
        }
        let disturbed = r.reqs.iter().any(|q| q.fault.is_some() && q.ms >= from && q.ms <= till);
        if disturbed {
            continue;
        }
        checked += 1;
        if e.ms > r.begin_ms {
            w.count("probe:C09", 1);
            w.count("duplicates found by a running watch", 1);
        }
        let known = b.reports.contains_key(&w.report_of_slot(slot));
        let by_other = after.contains_key(&w.report_of_slot(slot)) && !reports.iter().any(|x| x.0 == slot);
        if !known && !by_other && !reports.iter().any(|(s, ms)| *s == slot && *ms <= till) {
            w.fail("C09", format!("slot {slot} appeared at {} s and was not reported by the scan from {} to {} s", e.ms / 1000, from / 1000, till / 1000));
        }
    }
    w.count("duplicates a watch had to report", checked);
    w.count("scans", r.sleeps.len() as u64);
}

fn dry(w: &mut World, r: &Running) {
    for q in &r.reqs {
        if q.method == "sendTransaction" || q.method == "requestAirdrop" {
            w.fail("C04", format!("a dry run sent {} ({:?})", q.method, q.acts));
        }
    }
    if r.reqs.iter().any(|q| q.kind == Kind::Simulate) {
        w.count("probe:C04", 1);
    }
}

fn short(k: &Pubkey) -> String {
    k.to_string().chars().take(8).collect()
}

fn close(w: &mut World, b: &Before, r: &Running, ctx: &Ctx) {
    let Cmd::Close { report, node, reporter, dest } = &r.spec.cmd else { return };
    let label = if b.special { "C06" } else { "C05" };
    if b.special && !b.reports.is_empty() {
        w.count("probe:C06", 1);
    }
    let matches = |w: &World, k: &Pubkey, h: &model::Header| {
        report.is_none_or(|t| {
            *k == match t {
                Target::Slot(s) => w.report_of_slot(s),
                Target::Junk(i) => w.junk_key(i),
            }
        }) && node.is_none_or(|n| w.node(n) == h.node)
            && reporter.is_none_or(|p| w.person(p) == h.reporter)
            && dest.is_none_or(|d| w.dest(d) == h.destination)
    };
    match &r.end {
        Some(End::Panic(p)) => w.fail(label, format!("close panicked: {p}")),
        Some(End::Stuck) => w.fail(label, "close never ended".into()),
        Some(End::Err(e)) if ctx.faults == 0 => w.fail(label, format!("close failed: {e}")),
        _ => {}
    }
    let done: BTreeSet<Pubkey> = w
        .done_by(r)
        .iter()
        .filter_map(|(_, a)| if let Act::CloseReport { report, .. } = a { Some(*report) } else { None })
        .collect();
    let mut eligible = BTreeMap::new();
    // Reports still too young and, of them, matching ones, as of each epoch the client may have been told.
    let mut early: Vec<(u64, u64)> = vec![(0, 0); (ctx.epoch_end - b.epoch + 1).min(64) as usize];
    let known = r.told.clone().unwrap_or_default();
    for (k, (lamports, d)) in &known {
        let Some((h, _, _)) = model::decode_report(d) else { continue };
        let m = matches(w, k, &h);
        if h.epoch > b.epoch {
            w.count("reports of an epoch that began while close worked", 1);
        }
        for (e, n) in (b.epoch..).zip(early.iter_mut()) {
            if h.epoch + 3 > e {
                n.0 += 1;
                n.1 += m as u64;
            }
        }
        if h.epoch + 3 <= b.epoch && m {
            eligible.insert(*k, (*lamports, h));
        }
    }
    // Never anything else.
    for k in &done {
        let Some((_, d)) = known.get(k).or(b.reports.get(k)) else {
            w.fail(label, format!("close removed {}, which was no report", short(k)));
            continue;
        };
        let (h, _, _) = model::decode_report(d).unwrap();
        if h.epoch + 3 > ctx.epoch_end {
            w.fail(label, format!("close removed a report of epoch {} in epoch {}", h.epoch, ctx.epoch_end));
        }
        if !matches(w, k, &h) {
            w.fail(label, format!("close removed a report that does not match the filters: {h:?}"));
        }
    }
    if r.spec.dry_run {
        return;
    }
    // What it tried to close.
    for q in &r.reqs {
        for a in &q.acts {
            if let Act::CloseReport { report, destination } = a {
                if let Some((_, d)) = known.get(report) {
                    let (h, _, _) = model::decode_report(d).unwrap();
                    if *destination != h.destination {
                        w.fail(label, format!("close of {} names destination {}", short(report), short(destination)));
                    }
                    if h.epoch + 3 > ctx.epoch_end {
                        w.fail(label, format!("close tried a report of epoch {} in epoch {}", h.epoch, ctx.epoch_end));
                    }
                    if !matches(w, report, &h) {
                        w.fail(label, format!("close tried a report that does not match the filters: {h:?}"));
                    }
                }
            }
        }
    }
    let payable = |w: &World, h: &model::Header| !(0..3).any(|i| w.dest(Dest::Unpayable(i)) == h.destination);
    let same_epoch = ctx.epoch_end == b.epoch;
    if ctx.quiet && same_epoch {
        let want: BTreeSet<Pubkey> = eligible.iter().filter(|(_, (_, h))| payable(w, h)).map(|(k, _)| *k).collect();
        if done != want {
            let missed: Vec<String> = want.difference(&done).map(short).collect();
            let t = describe_end(r);
            w.fail(label, format!("close closed {} of {} eligible matching reports, missing {missed:?}; it {t}", done.len(), want.len()));
        }
        if !want.is_empty() && want.len() < known.len() {
            w.count("probe:C05", 1);
        }
        w.count("reports closed undisturbed", want.len() as u64);
    }
    // One refused or failing close does not keep the others from being closed.
    let Some(End::Ok(text)) = &r.end else { return };
    if same_epoch && !ctx.quiet && r.spec.crash.is_none() && r.told.is_some() {
        let left = eligible
            .iter()
            .filter(|(k, (_, h))| payable(w, h) && !done.contains(*k) && w.cluster.reports().contains_key(*k))
            .count();
        let jumps = ctx.events.iter().any(|e| matches!(e, Env::Epochs(_) | Env::Slots(_) | Env::Balance(_) | Env::Fork { .. }));
        if left > ctx.faults && !jumps {
            w.fail(label, format!("close left {left} eligible matching reports open after {} faults", ctx.faults));
        }
    }
    // What it says.
    let Some(said) = parse_close(r, &strip(text)) else {
        w.fail(label, format!("unreadable answer of close: {}", text.chars().take(200).collect::<String>()));
        return;
    };
    let announced: BTreeSet<Pubkey> = said.rows.iter().map(|x| x.0).collect();
    if announced.len() != said.rows.len() {
        w.fail(label, "close announced a report twice".into());
    }
    let ever: BTreeSet<Pubkey> =
        w.ever_by(r).iter().filter_map(|a| if let Act::CloseReport { report, .. } = a { Some(*report) } else { None }).collect();
    if !announced.is_subset(&ever) {
        let extra: Vec<String> = announced.difference(&ever).map(short).collect();
        w.fail(label, format!("close announced reports it did not close: {extra:?}"));
    }
    if ctx.quiet && announced != done {
        let silent: Vec<String> = done.difference(&announced).map(short).collect();
        w.fail(label, format!("close did not announce what it closed: {silent:?}"));
    }
    let mut total = 0;
    for (k, violator, who, to, lamports) in &said.rows {
        total += lamports.unwrap_or(0);
        if let Some((bal, d)) = known.get(k) {
            let (h, _, _) = model::decode_report(d).unwrap();
            if (*violator, *who, *to) != (h.node, h.reporter, h.destination) {
                w.fail(label, format!("close described report {} wrongly", short(k)));
            }
            if ctx.alone && ctx.events.is_empty() && *lamports != Some(*bal) {
                w.fail(label, format!("close announced {lamports:?} lamports recovered from a report that held {bal}"));
            }
        }
    }
    if let Some(t) = said.total {
        if t != total {
            w.fail(label, format!("close announced {t} lamports in total, {total} in its list"));
        }
    }
    if let Some(n) = said.count {
        if n != said.rows.len() as u64 {
            w.fail(label, format!("close announced {n} closed reports and listed {}", said.rows.len()));
        }
    }
    if !early.iter().any(|n| said.early == Some(n.0) || said.early == Some(n.1)) && early.len() < 64 {
        w.fail(label, format!("close announced {:?} reports too young, there were (in all, matching) {early:?}", said.early));
    }
}

struct Closed {
    rows: Vec<(Pubkey, Pubkey, Pubkey, Pubkey, Option<u64>)>,
    early: Option<u64>,
    count: Option<u64>,
    total: Option<u64>,
}

fn parse_close(r: &Running, text: &str) -> Option<Closed> {
    let key = |s: &str| s.trim().parse::<Pubkey>().ok();
    if matches!(r.spec.out, Out::Json | Out::JsonCompact) {
        let v: Value = serde_json::from_str(text).ok()?;
        let c = &v["commandOutput"];
        let mut rows = vec![];
        for x in c[1].as_array()? {
            let k = |n: &str| x[n].as_str().and_then(key);
            rows.push((k("reportAccount")?, k("pubkey")?, k("reporter")?, k("destination")?, x["lamports"].as_u64()));
        }
        return Some(Closed { rows, early: c[0].as_u64(), count: None, total: None });
    }
    let mut rows: Vec<(Pubkey, Pubkey, Pubkey, Pubkey, Option<u64>)> = vec![];
    let mut c = Closed { rows: vec![], early: None, count: None, total: None };
    for l in text.lines().map(|l| l.trim()) {
        if let Some(v) = l.strip_prefix("Closed report account") {
            let zero = Pubkey::default();
            rows.push((key(v)?, zero, zero, zero, None));
        } else if let Some(v) = l.strip_prefix("Violator:") {
            rows.last_mut()?.1 = key(v)?;
        } else if let Some(v) = l.strip_prefix("Reporter:") {
            rows.last_mut()?.2 = key(v)?;
        } else if let Some(v) = l.strip_prefix("Reclaimed ") {
            let (n, d) = v.split_once(" to destination ")?;
            let row = rows.last_mut()?;
            row.4 = n.parse().ok();
            row.3 = key(d)?;
        } else if let Some(v) = l.strip_prefix("Reports too soon to close:") {
            c.early = v.trim().parse().ok();
        } else if let Some(v) = l.strip_prefix("Closed reports:") {
            c.count = v.trim().parse().ok();
        } else if let Some(v) = l.strip_prefix("Total lamports recovered:") {
            c.total = v.trim().parse().ok();
        }
    }
    c.rows = rows;
    (c.count.is_some() && c.total.is_some()).then_some(c)
}

/// One listed report: address, header, and what was shown of its shreds.
struct Row {
    address: Pubkey,
    reporter: Pubkey,
    destination: Pubkey,
    epoch: u64,
    node: Pubkey,
    slot: u64,
    kind: String,
    proof: Option<Vec<u8>>,
    lines: Vec<String>,
}

fn parse_display(r: &Running, text: &str) -> Option<(Vec<Row>, Option<u64>)> {
    let key = |s: &str| s.trim().parse::<Pubkey>().ok();
    if matches!(r.spec.out, Out::Json | Out::JsonCompact) {
        let v: Value = serde_json::from_str(text).ok()?;
        let mut rows = vec![];
        for x in v["commandOutput"].as_array()? {
            let k = |n: &str| x[n].as_str().and_then(key);
            rows.push(Row {
                address: k("reportAddress")?,
                reporter: k("reporter")?,
                destination: k("destination")?,
                epoch: x["epoch"].as_u64()?,
                node: k("pubkey")?,
                slot: x["slot"].as_u64()?,
                kind: x["violationType"].as_str()?.into(),
                proof: Some(x["proof"].as_array()?.iter().filter_map(|b| b.as_u64()).map(|b| b as u8).collect()),
                lines: vec![],
            });
        }
        return Some((rows, None));
    }
    let mut rows: Vec<Row> = vec![];
    let mut open = None;
    for l in text.lines().map(|l| l.trim()) {
        if let Some(v) = l.strip_prefix("Report account address:") {
            let zero = Pubkey::default();
            rows.push(Row {
                address: key(v)?,
                reporter: zero,
                destination: zero,
                epoch: u64::MAX,
                node: zero,
                slot: u64::MAX,
                kind: String::new(),
                proof: None,
                lines: vec![],
            });
        } else if let Some(v) = l.strip_prefix("Violator:") {
            rows.last_mut()?.node = key(v)?;
        } else if let Some(v) = l.strip_prefix("Violation Type:") {
            rows.last_mut()?.kind = v.trim().into();
        } else if let Some(v) = l.strip_prefix("Violation Slot:") {
            rows.last_mut()?.slot = v.trim().parse().ok()?;
        } else if let Some(v) = l.strip_prefix("Reporter:") {
            rows.last_mut()?.reporter = key(v)?;
        } else if let Some(v) = l.strip_prefix("Reported Epoch:") {
            rows.last_mut()?.epoch = v.trim().parse().ok()?;
        } else if let Some(v) = l.strip_prefix("Destination:") {
            rows.last_mut()?.destination = key(v)?;
        } else if let Some(v) = l.strip_prefix("Open reports:") {
            open = v.trim().parse().ok();
        } else if let Some(row) = rows.last_mut() {
            row.lines.push(l.into());
        }
    }
    open?;
    Some((rows, open))
}

fn display(w: &mut World, b: &Before, r: &Running, ctx: &Ctx) {
    let Cmd::Display { epoch, node, reporter } = &r.spec.cmd else { return };
    let label = if b.special { "C06" } else { "C07" };
    match &r.end {
        Some(End::Panic(p)) => w.fail(label, format!("display panicked: {p}")),
        Some(End::Stuck) => w.fail(label, "display never ended".into()),
        Some(End::Err(e)) if ctx.faults == 0 => w.fail(label, format!("display failed: {e}")),
        _ => {}
    }
    let Some(End::Ok(text)) = &r.end else { return };
    let told = r.told.clone().unwrap_or_default();
    let mut expected = BTreeMap::new();
    for (k, (_, d)) in &told {
        let Some((h, s1, s2)) = model::decode_report(d) else { continue };
        if epoch.is_none_or(|e| e == h.epoch) && node.is_none_or(|n| w.node(n) == h.node) && reporter.is_none_or(|p| w.person(p) == h.reporter) {
            expected.insert(*k, (h, s1, s2, d[model::HEADER_LEN..].to_vec()));
        }
    }
    if b.special && !told.is_empty() {
        w.count("probe:C06", 1);
    }
    if !b.special && !expected.is_empty() {
        w.count("probe:C07", 1);
    }
    let Some((rows, open)) = parse_display(r, &strip(text)) else {
        w.fail(label, format!("unreadable answer of display: {}", text.chars().take(200).collect::<String>()));
        return;
    };
    let listed: BTreeSet<Pubkey> = rows.iter().map(|x| x.address).collect();
    if listed.len() != rows.len() {
        w.fail(label, "display lists a report twice".into());
    }
    for k in expected.keys() {
        if !listed.contains(k) {
            w.fail(label, format!("display does not list report {}", short(k)));
        }
    }
    if open.is_some_and(|n| n != rows.len() as u64) {
        w.fail(label, format!("display announces {open:?} open reports and lists {}", rows.len()));
    }
    if rows.windows(2).any(|p| p[0].slot > p[1].slot) {
        w.fail(label, "display is not ordered by slot".into());
    }
    for row in &rows {
        let Some((h, s1, s2, proof)) = expected.get(&row.address) else {
            w.fail(label, format!("display lists {} of slot {}, which is no matching report", short(&row.address), row.slot));
            continue;
        };
        let same = row.reporter == h.reporter
            && row.destination == h.destination
            && row.epoch == h.epoch
            && row.node == h.node
            && row.slot == h.slot
            && row.kind == "duplicate block";
        if !same {
            w.fail(label, format!("display shows report {} with other fields than recorded", short(&row.address)));
        }
        if row.proof.as_ref().is_some_and(|p| p != proof) {
            w.fail(label, format!("display shows other evidence than recorded for {}", short(&row.address)));
        }
        if r.spec.out == Out::Verbose {
            verbose(w, label, row, [s1, s2]);
        }
    }
    w.count("reports displayed", rows.len() as u64);
}

/// The decoded evidence a verbose listing shows.
fn verbose(w: &mut World, label: &str, row: &Row, shreds: [&Vec<u8>; 2]) {
    // Bytes behind the shred are not part of it, and a client may refuse to decode such evidence.
    if shreds.iter().any(|s| model::parse(s).is_none_or(|p| !p.exact_len || !decodable(&p))) {
        return;
    }
    for (i, s) in shreds.into_iter().enumerate() {
        let Some(p) = model::parse(s) else { continue };
        let kind = if p.v.code { "Code" } else { "Data" };
        let head = format!("Shred{}: fec_set_index {}, index {}, shred_type {kind}", i + 1, p.fec, p.index);
        let at = row.lines.iter().position(|l| *l == head);
        let Some(at) = at else {
            w.fail(label, format!("verbose display of slot {} lacks '{head}'", row.slot));
            continue;
        };
        let rest = row.lines[at + 1..].iter().take(2).cloned().collect::<Vec<_>>().join(" ");
        let root = solana_sdk::hash::Hash::new_from_array(p.root).to_string();
        if !rest.contains(&format!("version {},", p.version)) || !rest.contains(&root) || !rest.contains(&format!("last_in_slot {}", p.last)) {
            w.fail(label, format!("verbose display of slot {} misdescribes shred {}", row.slot, i + 1));
        }
        let bytes = any_numbers_in_order(rest.split("payload:").nth(1).unwrap_or(""));
        if bytes != *s {
            w.fail(label, format!("verbose display of slot {} shows other bytes for shred {}", row.slot, i + 1));
        }
    }
    // Whether two coding shreds describe their erasure set alike.
    let set = |s: &[u8]| {
        let p = model::parse(s)?;
        p.v.code.then(|| (p.fec, p.num_data, p.num_coding, p.index.checked_sub(u32::from(p.position))))
    };
    let want = set(shreds[0]).zip(set(shreds[1])).map(|(a, b)| a == b && a.3.is_some());
    let said = row.lines.iter().find_map(|l| l.strip_prefix("Erasure consistency")).and_then(|v| v.trim().parse::<bool>().ok());
    if said != want {
        w.fail(label, format!("verbose display of slot {} says erasure consistency {said:?}, not {want:?}", row.slot));
    }
}

fn any_numbers_in_order(s: &str) -> Vec<u8> {
    let s = s.split_once('[').map_or(s, |x| x.1);
    let s = s.split_once(']').map_or(s, |x| x.0);
    s.split(|c: char| !c.is_ascii_digit()).filter_map(|t| t.parse().ok()).collect()
}

/// Whether the validator's own shred decoder takes it (it is stricter than the program).
fn decodable(p: &model::Parsed) -> bool {
    solana_ledger::shred::Shred::new_from_serialized_shred(p.content.iter().copied().chain(std::iter::repeat(0)).take(p.v.payload_len()).collect::<Vec<u8>>()).is_ok()
}

/// C08: no instance takes away or alters the evidence another one is still to report with.
fn spoiled(w: &mut World, running: &[Running]) {
    let done: Vec<Vec<(u64, Act)>> = running.iter().map(|r| w.done_by(r)).collect();
    for (a, r) in running.iter().enumerate() {
        let owned: BTreeSet<Pubkey> = done[a]
            .iter()
            .filter_map(|(_, x)| match x {
                Act::CreateEvidence(k) => Some(*k),
                _ => None,
            })
            .collect();
        for (b, other) in running.iter().enumerate().filter(|(b, _)| *b != a) {
            for (ms, act) in &done[b] {
                let (Act::CloseEvidence(k) | Act::WriteEvidence(k)) = act else { continue };
                let needed = owned.contains(k)
                    && r.reqs.iter().filter(|q| q.ms >= *ms).flat_map(|q| &q.acts).any(|x| match x {
                        Act::WriteEvidence(e) => e == k,
                        Act::Report { evidence, .. } => evidence == k,
                        _ => false,
                    })
                    && !done[a].iter().any(|(at, x)| at <= ms && matches!(x, Act::Report { evidence, .. } if evidence == k));
                if needed {
                    let (i, j) = (r.id, other.id);
                    w.fail("C08", format!("instance {j} closed or overwrote the evidence {k} instance {i} was about to report with"));
                }
            }
        }
    }
}

/// C08: everything reportable ended up reported exactly once.
fn convergence(w: &mut World, specs: &[Inst], slot: u64, ops: &[Op]) {
    let [i] = specs else { return };
    let Cmd::Attach { start: None, end: None, continuous: None, .. } = i.cmd else { return };
    if i.dry_run || !i.faults.is_empty() || !i.env.is_empty() || i.crash.is_some() {
        return;
    }
    if w.cluster.bank.get(&w.person(PAYER)).is_none_or(|a| a.lamports() < 1_000_000_000_000) {
        return;
    }
    let now = w.cluster.slot();
    let closes = ops.iter().any(|o| match o {
        Op::Env(e) => matches!(e, Env::Close { .. }),
        Op::Run(v) => v.iter().any(|i| matches!(i.cmd, Cmd::Close { .. }) || i.env.iter().any(|e| matches!(e.1, Env::Close { .. }))),
    });
    let reports = w.cluster.reports();
    for e in w.ledger.clone() {
        let s = e.dup.slot;
        let node = w.node_of_slot(s);
        let times = w
            .cluster
            .landed
            .iter()
            .filter(|l| l.status.is_ok() && !l.undone)
            .flat_map(|l| l.parsed.iter())
            .filter(|a| matches!(a, Act::Report { slot, node: n, .. } if *slot == s && *n == node))
            .count();
        if times > 1 && !closes {
            w.fail("C08", format!("slot {s} was recorded {times} times"));
        }
        let there = reports.contains_key(&w.report_of_slot(s));
        if e.provable && in_window(w, s, slot, now) && !there {
            w.fail("C08", format!("slot {s} is still unreported after faults stopped ({:?})", e.dup.kind));
        }
    }
}

// ---------------------------------------------------------------------------------------------

pub fn simpler(op: &Value) -> Vec<Value> {
    let Ok(op) = serde_json::from_value::<Op>(op.clone()) else { return vec![] };
    let mut out: Vec<Op> = vec![];
    match &op {
        Op::Run(v) => {
            for i in 0..v.len() {
                if v.len() > 1 {
                    let mut x = v.clone();
                    x.remove(i);
                    out.push(Op::Run(x));
                }
                let mut with = |f: &dyn Fn(&mut Inst)| {
                    let mut x = v.clone();
                    f(&mut x[i]);
                    if x != *v {
                        out.push(Op::Run(x));
                    }
                };
                with(&|x| x.faults.clear());
                with(&|x| x.env.clear());
                with(&|x| x.crash = None);
                with(&|x| x.jitter = 0);
                with(&|x| x.start_ms = 0);
                with(&|x| x.payer2 = false);
                with(&|x| x.out = Out::Display);
                for k in 0..v[i].faults.len() {
                    with(&|x| {
                        x.faults.remove(k);
                    });
                }
                for k in 0..v[i].env.len() {
                    with(&|x| {
                        x.env.remove(k);
                    });
                }
                with(&|x| match &mut x.cmd {
                    Cmd::Attach { start, end, reporter, dest, .. } => {
                        (*start, *end, *reporter, *dest) = (None, None, None, None);
                    }
                    Cmd::Close { report, node, reporter, dest } => {
                        (*report, *node, *reporter, *dest) = (None, None, None, None);
                    }
                    Cmd::Display { epoch, node, reporter } => {
                        (*epoch, *node, *reporter) = (None, None, None);
                    }
                });
            }
        }
        Op::Env(Env::Report { dup, reporter, dest, pad }) if *pad > 0 => {
            out.push(Op::Env(Env::Report { dup: *dup, reporter: *reporter, dest: *dest, pad: 0 }));
        }
        _ => {}
    }
    out.iter().map(|o| serde_json::to_value(o).unwrap()).collect()
}

pub fn describe(case: &Value) -> Value {
    let Ok(c) = serde_json::from_value::<Case>(case.clone()) else { return Value::Null };
    let ops: Vec<String> = c.ops.iter().take(12).map(|o| format!("{o:?}").chars().take(400).collect()).collect();
    json!({"config": c.config, "operations": c.ops.len(), "first_operations": ops})
}

pub const REAL: &[&str] = &[
    "spl-slashing command-line client (clients/cli of /repo: argument parsing, configuration, commands, output)",
    "solana-rpc-client 2.3 (request building, confirmation loops, retries, error mapping)",
    "solana-ledger Blockstore on RocksDB (primary written by the simulated validator, secondary opened by the client)",
    "tokio current-thread runtime with paused clock",
    "solana-slashing-program native build, solana-svm 2.3.5 transaction processor, system program, ed25519 precompile, record program",
];
pub const STUBBED: &[&str] = &[
    "RPC node: answers, latencies, faults (cluster.rs, behind the RpcSender trait)",
    "block production, confirmation, forks, blockhashes, leader schedule (cluster.rs, chain.rs)",
    "clock, sleep and entropy of the client process (libc symbols interposed in seam.rs)",
    "validator's ledger writer, competing reporters, strangers (cli_world.rs, cli_gen.rs)",
];

pub fn rule(property: &str) -> String {
    let what = match property {
        "C01" => "ran an undisturbed attach that had at least one duplicate slot to report",
        "C02" => "ran attach over at least two visible duplicates with a fault injected or a slot that cannot be reported",
        "C03" => "ran an attach that created at least one evidence account and was not killed",
        "C04" => "ran a dry run that had at least one transaction to simulate",
        "C05" => "ran an undisturbed close that had some, but not all, of the open reports to close",
        "C06" => "ran close or display while planted accounts, odd evidence or unpayable destinations stood beside genuine reports",
        "C07" => "ran a display that had at least one report to list",
        "C08" => "killed an attach or ran several at once before the final fault-free one",
        "C09" => "had a running watch meet a duplicate that appeared after it had started",
        _ => "",
    };
    format!(
        "A case is one seeded schedule of client processes, ledger writes, competing reporters, clock, forks, RPC and \
         transaction faults and kills. It is non-trivial if it {what}; distinct ones are counted by the hash of every \
         request, reply, output and the final state."
    )
}
