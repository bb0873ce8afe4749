//! The client family: the real command-line client on a virtual clock, against the simulated
//! cluster's RPC node and a real ledger database.
use {
    crate::{
        cluster::{parse_tx, Act, Cluster, Fate},
        evidence::{self, Built},
        model::{self, Conflict},
        rng::Rng,
        seam,
        world::det_key,
    },
    serde_derive::{Deserialize, Serialize},
    serde_json::Value,
    slashing_cli_dst::dst,
    solana_client::nonblocking::rpc_client::RpcClient,
    solana_ledger::{
        blockstore_meta::SlotMeta,
        blockstore::Blockstore,
        blockstore_options::{BlockstoreOptions, LedgerColumnOptions},
    },
    solana_rpc_client::{
        rpc_client::RpcClientConfig,
        rpc_sender::{RpcSender, RpcTransportStats},
    },
    solana_rpc_client_api::{
        client_error::{Error as ClientError, ErrorKind as ClientErrorKind},
        request::{RpcError, RpcRequest, RpcResponseErrorData},
    },
    solana_sdk::{
        account::{Account, ReadableAccount},
        pubkey::Pubkey,
        signature::{Keypair, Signer},
        transaction::Transaction,
    },
    std::{
        cell::{Cell, RefCell},
        collections::{BTreeMap, BTreeSet},
        future::Future,
        path::PathBuf,
        pin::Pin,
        sync::Arc,
        task::{Context, Poll},
        time::Duration,
    },
};

pub const NODES: u8 = 4;
pub const PEOPLE: u8 = 8;
pub const PAYER: u8 = 0;
pub const PAYER2: u8 = 1;
pub const STRANGER: u8 = 2;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Config {
    pub seed: u64,
    pub slots_per_epoch: u64,
    pub start_slot: u64,
    pub rent: u64,
    /// Slots by which the confirmed state trails the tip.
    pub lag: u64,
    pub payer_lamports: u64,
    /// Runs the client's debug build.
    #[serde(default)]
    pub checked: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum DupKind {
    Genuine(Conflict),
    /// Two shreds of one consistent block.
    Honest,
    /// A genuine conflict signed by somebody who did not lead the slot.
    WrongSigner,
    /// A torn record: one shred cut short.
    Torn(u16),
    /// Bytes that are no shred at all.
    Garbage(u16),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Dup {
    pub slot: u64,
    pub kind: DupKind,
    pub seed: u64,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Dest {
    Person(u8),
    /// An account that can never be credited.
    Unpayable(u8),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Env {
    /// The validator's ledger records a duplicate.
    Dup(Dup),
    /// Somebody else reports a violation.
    Report { dup: Dup, reporter: u8, dest: Dest, pad: u16 },
    Slots(u64),
    Epochs(u64),
    /// Somebody makes the slashing program own a zeroed account.
    Junk { id: u8, len: u16, extra: u64 },
    /// Lamports sent to a report address.
    Donate { slot: u64, lamports: u64 },
    Fork { reforward: bool },
    /// Somebody else closes a report.
    Close { slot: u64 },
    /// The payer's balance becomes this.
    Balance(u64),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Out {
    Display,
    Verbose,
    Json,
    JsonCompact,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Fault {
    DropRequest,
    DropReply,
    Unhealthy,
    RateLimited,
    /// The node answers from an old state, or does not know the transaction yet.
    Behind,
    TxLost,
    TxDelay(u64),
    TxTwice,
    /// The answer takes this long.
    Stall(u64),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Cmd {
    Attach {
        start: Option<u64>,
        end: Option<u64>,
        reporter: Option<u8>,
        dest: Option<u8>,
        /// Seconds between scans, if continuous; 0 for the default.
        continuous: Option<u64>,
        /// Virtual seconds after which a continuous client is stopped.
        horizon: u64,
    },
    Close {
        /// The report of this slot's leader, or (`Err`) a planted account.
        report: Option<Target>,
        node: Option<u8>,
        reporter: Option<u8>,
        dest: Option<Dest>,
    },
    Display {
        epoch: Option<u64>,
        node: Option<u8>,
        reporter: Option<u8>,
    },
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Target {
    Slot(u64),
    Junk(u8),
}

/// What a request is for, as far as one can tell from outside.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Kind {
    Leaders,
    Account,
    Blockhash,
    Status,
    Programs,
    Epoch,
    Create,
    Write,
    Report,
    CloseEvidence,
    CloseReport,
    Simulate,
    Other,
}

/// Which request of an instance.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Sel {
    Index(u32),
    /// The n-th of its kind.
    Call(Kind, u32),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum At {
    /// Just before the node handles this request of the instance.
    Request(Sel),
    /// Milliseconds after the run operation began.
    Ms(u64),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Inst {
    pub cmd: Cmd,
    pub out: Out,
    pub dry_run: bool,
    pub payer2: bool,
    pub start_ms: u64,
    /// 0: every message takes the same time.
    pub jitter: u64,
    pub faults: Vec<(Sel, Fault)>,
    pub env: Vec<(At, Env)>,
    /// The process dies at this request; whether the request was still delivered.
    pub crash: Option<(Sel, bool)>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    Env(Env),
    Run(Vec<Inst>),
}

/// How one instance ended.
#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Ok(String),
    Err(String),
    Panic(String),
    /// Killed by the simulator (crash or end of the horizon).
    Killed,
    /// Still running when the simulator lost patience.
    Stuck,
}

#[derive(Clone, Debug)]
pub struct Req {
    pub ms: u64,
    pub kind: Kind,
    pub nth: u32,
    pub method: String,
    pub acts: Vec<Act>,
    pub fault: Option<Fault>,
    pub failed: bool,
    /// First parameter, shortened.
    pub arg: String,
    pub sig: Option<String>,
}

impl Req {
    fn is(&self, idx: u32, s: &Sel) -> bool {
        match s {
            Sel::Index(i) => *i == idx,
            Sel::Call(k, n) => *k == self.kind && *n == self.nth,
        }
    }
}

pub type Reports = BTreeMap<Pubkey, (u64, Vec<u8>)>;

pub struct Running {
    pub id: usize,
    pub spec: Inst,
    pub idx: u32,
    pub out: String,
    pub err: String,
    pub killed: bool,
    pub end: Option<End>,
    pub reqs: Vec<Req>,
    /// (start, length) in ms of blocking sleeps.
    pub sleeps: Vec<(u64, u64)>,
    pub begin_ms: u64,
    pub end_ms: u64,
    /// The genuine reports the node told this instance about, last time it asked.
    pub told: Option<Reports>,
    env: Vec<(At, Env, bool)>,
    pub over: u32,
}

#[derive(Clone)]
pub struct LedgerEntry {
    pub dup: Dup,
    pub shreds: [Vec<u8>; 2],
    pub ms: u64,
    pub leader: usize,
    /// The program must accept it as a report against the slot's leader (window aside).
    /// Convicts in the strictest reading of the rules.
    pub provable: bool,
    /// Convicts although a shred is cut short behind what its signature covers.
    pub possible: bool,
}

/// A report somebody got recorded.
#[derive(Clone, Debug)]
pub struct Recorded {
    pub address: Pubkey,
    pub node: Pubkey,
    pub slot: u64,
    pub reporter: Pubkey,
    pub destination: Pubkey,
    pub payable: bool,
    pub padded: bool,
}

pub struct World {
    pub cfg: Config,
    pub cluster: Cluster,
    pub keys: Vec<Keypair>,
    pub people: Vec<Keypair>,
    pub dir: PathBuf,
    primary: Option<Blockstore>,
    pub ledger: Vec<LedgerEntry>,
    pub junk: BTreeMap<u8, Pubkey>,
    pub recorded: Vec<Recorded>,
    pub running: Vec<Running>,
    pub violations: Vec<crate::runner::Violation>,
    pub op_no: usize,
    pub counters: BTreeMap<String, u64>,
    pub hash: u64,
    uniq: u64,
    run_start_ms: u64,
    first: BTreeMap<Pubkey, Vec<u8>>,
}

thread_local! {
    static W: RefCell<Option<World>> = const { RefCell::new(None) };
    static CURRENT: Cell<usize> = const { Cell::new(usize::MAX) };
    static CAPTURE: RefCell<Option<Capture>> = const { RefCell::new(None) };
    /// Virtual ns when this runtime started, its first instant, and ns spent in blocking sleeps.
    static TIME: Cell<(u64, Option<tokio::time::Instant>, u64)> = const { Cell::new((0, None, 0)) };
}

/// Genuine reports: nobody but the program can make a nonzero first byte.
pub fn reports_in(st: &crate::chain::BankState) -> Reports {
    st.accounts
        .iter()
        .filter(|(_, a)| a.lamports() > 0 && *a.owner() == model::program_id() && a.data().first().is_some_and(|v| *v != 0))
        .map(|(k, a)| (*k, (a.lamports(), a.data().to_vec())))
        .collect()
}

pub fn with<T>(f: impl FnOnce(&mut World) -> T) -> T {
    W.with(|w| f(w.borrow_mut().as_mut().expect("no world")))
}

fn fnv(h: u64, b: &[u8]) -> u64 {
    b.iter().fold(h, |h, x| (h ^ *x as u64).wrapping_mul(0x0000_0100_0000_01b3))
}

/// Standard output and error of the client, while it runs.
struct Capture {
    fds: [i32; 2],
    saved: [i32; 2],
    pos: [usize; 2],
}
impl Capture {
    fn begin() -> Self {
        use std::io::Write;
        let _ = std::io::stdout().flush();
        let mut c = Capture { fds: [0; 2], saved: [0; 2], pos: [0; 2] };
        for i in 0..2 {
            unsafe {
                c.saved[i] = libc::dup(i as i32 + 1);
                c.fds[i] = libc::memfd_create(c"client".as_ptr(), libc::MFD_CLOEXEC);
                assert!(c.fds[i] >= 0 && c.saved[i] >= 0, "capture");
                libc::dup2(c.fds[i], i as i32 + 1);
            }
        }
        c
    }
    fn read(&mut self) -> [Vec<u8>; 2] {
        use std::io::Write;
        let _ = std::io::stdout().flush();
        let mut r = [vec![], vec![]];
        for i in 0..2 {
            loop {
                let mut buf = [0u8; 4096];
                let n = unsafe { libc::pread(self.fds[i], buf.as_mut_ptr() as *mut _, buf.len(), self.pos[i] as i64) };
                if n <= 0 {
                    break;
                }
                r[i].extend_from_slice(&buf[..n as usize]);
                self.pos[i] += n as usize;
            }
        }
        r
    }
}
impl Drop for Capture {
    fn drop(&mut self) {
        use std::io::Write;
        let _ = std::io::stdout().flush();
        for i in 0..2 {
            unsafe {
                libc::dup2(self.saved[i], i as i32 + 1);
                libc::close(self.saved[i]);
                libc::close(self.fds[i]);
            }
        }
    }
}
/// Hands what was printed since the last call to the instance that was running.
fn collect(keep: bool) {
    let got = CAPTURE.with(|c| c.borrow_mut().as_mut().map(|c| c.read()));
    let Some([o, e]) = got else { return };
    let me = CURRENT.with(|c| c.get());
    if !keep || me == usize::MAX || (o.is_empty() && e.is_empty()) {
        return;
    }
    with(|w| {
        let r = &mut w.running[me];
        r.out.push_str(&String::from_utf8_lossy(&o));
        r.err.push_str(&String::from_utf8_lossy(&e));
    });
}

fn now_ns() -> u64 {
    let (base, start, slept) = TIME.with(|t| t.get());
    let ran = start.map_or(0, |s| tokio::time::Instant::now().duration_since(s).as_nanos() as u64);
    base + ran + slept
}

/// Brings the cluster and the environment up to the present.
fn tick() -> u64 {
    let ns = now_ns();
    seam::set_now(ns);
    let ms = ns / 1_000_000;
    // On-chain programs log to standard output too.
    collect(true);
    with(|w| w.catch_up(ms));
    collect(false);
    ms
}

/// The client blocks its thread for `ns`.
fn on_sleep(ns: u64) {
    let me = CURRENT.with(|c| c.get());
    if me == usize::MAX {
        return;
    }
    let before = now_ns() / 1_000_000;
    TIME.with(|t| {
        let (b, s, x) = t.get();
        t.set((b, s, x + ns));
    });
    let ms = tick();
    with(|w| {
        w.running[me].sleeps.push((before, ns / 1_000_000));
        w.count("blocking sleeps", 1);
        let Cmd::Attach { horizon, .. } = w.running[me].spec.cmd else { return };
        if ms < w.running[me].begin_ms + horizon * 1000 {
            return;
        }
        // The end of the simulated watch. A scan without anything new never yields, so the
        // operating system first refuses to open the ledger, which ends the client.
        w.running[me].over += 1;
        match w.running[me].over {
            1 => seam::starve_files(true),
            4 => {
                seam::starve_files(false);
                w.running[me].killed = true;
                let slot = w.ledger.iter().map(|e| e.dup.slot).max().unwrap_or(0) + 1_000_000;
                w.env(&Env::Dup(Dup { slot, kind: DupKind::Garbage(10), seed: 1 }));
                w.ledger.pop();
            }
            _ => {}
        }
    });
}

struct Sender {
    me: usize,
}

fn rpc_error(code: i64, message: String, data: Value) -> ClientError {
    let data = match code {
        -32002 => serde_json::from_value(data).map_or(RpcResponseErrorData::Empty, RpcResponseErrorData::SendTransactionPreflightFailure),
        -32005 => RpcResponseErrorData::NodeUnhealthy { num_slots_behind: None },
        _ => RpcResponseErrorData::Empty,
    };
    RpcError::RpcResponseError { code, message, data }.into()
}
fn transport(kind: std::io::ErrorKind) -> ClientError {
    ClientErrorKind::Io(std::io::Error::new(kind, "simulated network")).into()
}

#[async_trait::async_trait]
impl RpcSender for Sender {
    fn get_transport_stats(&self) -> RpcTransportStats {
        RpcTransportStats::default()
    }
    fn url(&self) -> String {
        "http://simulated".into()
    }
    async fn send(&self, request: RpcRequest, params: Value) -> Result<Value, ClientError> {
        let json = request.build_request_json(1, params.clone());
        let method = json["method"].as_str().unwrap_or("?").to_string();
        let me = self.me;
        tick();
        let (idx, fault, there, back, land, dead) = with(|w| w.begin_request(me, &method, &params));
        if dead {
            std::future::pending::<()>().await;
        }
        sleep(there).await;
        if fault == Some(Fault::DropRequest) {
            sleep(10_000).await;
            tick();
            with(|w| w.end_request(me, idx, true));
            return Err(transport(std::io::ErrorKind::TimedOut));
        }
        tick();
        collect(true);
        let answer = with(|w| w.serve(me, idx, &method, &params, fault, land));
        collect(false);
        if with(|w| w.running[me].killed) {
            std::future::pending::<()>().await;
        }
        sleep(back).await;
        if let Some(Fault::Stall(ms)) = fault {
            sleep(ms).await;
        }
        if fault == Some(Fault::DropReply) {
            sleep(10_000).await;
        }
        tick();
        let r = match (fault, answer) {
            (Some(Fault::DropReply), _) => Err(transport(std::io::ErrorKind::ConnectionReset)),
            (_, Ok(v)) => Ok(v),
            (_, Err(e)) => Err(rpc_error(e.code, e.message, e.data)),
        };
        with(|w| w.end_request(me, idx, r.is_err()));
        r
    }
}

async fn sleep(ms: u64) {
    tokio::time::sleep(Duration::from_millis(ms)).await
}

/// Runs one instance's future, keeping its output apart and its panics inside.
struct Process<F> {
    me: usize,
    f: Pin<Box<F>>,
}
impl<F: Future<Output = Result<String, String>>> Future for Process<F> {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let me = self.me;
        if with(|w| w.running[me].killed) {
            with(|w| w.finish(me, End::Killed));
            return Poll::Ready(());
        }
        CURRENT.with(|c| c.set(me));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.f.as_mut().poll(cx)));
        collect(true);
        CURRENT.with(|c| c.set(usize::MAX));
        if with(|w| w.running[me].killed) {
            with(|w| w.finish(me, End::Killed));
            return Poll::Ready(());
        }
        let end = match r {
            Ok(Poll::Pending) => return Poll::Pending,
            Ok(Poll::Ready(Ok(s))) => End::Ok(s),
            Ok(Poll::Ready(Err(e))) => End::Err(e),
            Err(_) => End::Panic(crate::svm::last_panic()),
        };
        with(|w| w.finish(me, end));
        Poll::Ready(())
    }
}

impl World {
    pub fn new(cfg: &Config) -> Self {
        let keys: Vec<_> = (0..NODES).map(|i| det_key(cfg.seed, "node", i)).collect();
        let people: Vec<_> = (0..PEOPLE).map(|i| det_key(cfg.seed, "client", i)).collect();
        let mut cluster = Cluster::new(
            cfg.seed,
            cfg.slots_per_epoch,
            cfg.start_slot,
            cfg.rent,
            cfg.lag,
            keys.iter().map(|k| k.pubkey()).collect(),
        );
        let rich = 1_000_000_000_000_000;
        for p in &people {
            cluster.bank.fund(p.pubkey(), rich);
        }
        cluster.bank.fund(people[PAYER as usize].pubkey(), cfg.payer_lamports);
        static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let dir = scratch_root().join(format!("run-{n}"));
        std::fs::create_dir_all(&dir).unwrap();
        for (i, name) in [(PAYER, "payer.json"), (PAYER2, "payer2.json")] {
            std::fs::write(dir.join(name), serde_json::to_vec(&people[i as usize].to_bytes().to_vec()).unwrap()).unwrap();
        }
        let yml = format!(
            "json_rpc_url: \"http://127.0.0.1:1\"\nwebsocket_url: \"\"\nkeypair_path: {}\naddress_labels: {{}}\ncommitment: confirmed\n",
            dir.join("payer.json").display()
        );
        std::fs::write(dir.join("config.yml"), yml).unwrap();
        // What a client keeps on its machine outlives it, but not the run.
        for variable in ["HOME", "TMPDIR"] {
            std::env::set_var(variable, &dir);
        }
        Self {
            cfg: cfg.clone(),
            cluster,
            keys,
            people,
            dir,
            primary: None,
            ledger: vec![],
            junk: BTreeMap::new(),
            recorded: vec![],
            running: vec![],
            violations: vec![],
            op_no: 0,
            counters: BTreeMap::new(),
            hash: 0xcbf2_9ce4_8422_2325,
            uniq: 0,
            run_start_ms: 0,
            first: BTreeMap::new(),
        }
    }

    pub fn count(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.to_string()).or_default() += n;
    }
    pub fn note(&mut self, b: &[u8]) {
        if std::env::var_os("SLASHSIM_NOTES").is_some() {
            LOG.with(|l| l.borrow_mut().push(format!("NOTE {}", String::from_utf8_lossy(b).replace('\n', " "))));
        }
        self.hash = fnv(self.hash, b);
    }
    pub fn fail(&mut self, property: &str, what: String) {
        self.note(what.as_bytes());
        let v = crate::runner::Violation { property: property.into(), what, op: self.op_no };
        if !self.violations.contains(&v) {
            self.violations.push(v);
        }
    }

    fn ledger_db(&mut self) -> &Blockstore {
        if self.primary.is_none() {
            let path = self.dir.join("ledger");
            std::fs::create_dir_all(&path).unwrap();
            let opened = seam::outside(|| {
                Blockstore::open_with_options(
                    &path,
                    BlockstoreOptions {
                        enforce_ulimit_nofile: false,
                        column_options: LedgerColumnOptions::default(),
                        ..BlockstoreOptions::default()
                    },
                )
            });
            self.primary = Some(opened.expect("ledger"));
        }
        self.primary.as_ref().unwrap()
    }

    pub fn ledger_path(&mut self) -> PathBuf {
        self.ledger_db();
        self.dir.join("ledger")
    }

    pub fn person(&self, i: u8) -> Pubkey {
        self.people[(i % PEOPLE) as usize].pubkey()
    }
    pub fn node(&self, i: u8) -> Pubkey {
        self.keys[i as usize % NODES as usize].pubkey()
    }
    pub fn slot_at(&self, ms: u64) -> u64 {
        self.cluster.slot_at(ms)
    }
    pub fn dest(&self, d: Dest) -> Pubkey {
        match d {
            Dest::Person(i) => self.person(i),
            Dest::Unpayable(0) => solana_sdk::sysvar::clock::id(),
            Dest::Unpayable(1) => solana_sdk::system_program::id(),
            Dest::Unpayable(_) => model::program_id(),
        }
    }
    pub fn node_of_slot(&self, slot: u64) -> Pubkey {
        self.cluster.nodes[self.cluster.leader(slot)]
    }
    pub fn report_of_slot(&self, slot: u64) -> Pubkey {
        model::report_address(&self.node_of_slot(slot), slot)
    }
    pub fn junk_key(&self, id: u8) -> Pubkey {
        det_key(self.cfg.seed, "junk", id).pubkey()
    }

    fn build(&self, d: &Dup) -> (Built, usize, bool, bool) {
        let leader = self.cluster.leader(d.slot);
        let mut r = Rng::derive(d.seed, "dup");
        let (signer, kind) = match d.kind {
            DupKind::Genuine(k) => (leader as u8, Some(k)),
            DupKind::Honest => (leader as u8, None),
            DupKind::WrongSigner => ((leader as u8 + 1) % NODES, Some(Conflict::MerkleRoot)),
            _ => (leader as u8, Some(Conflict::MerkleRoot)),
        };
        let ev = match kind {
            Some(k) => evidence::genuine(&mut r, signer, d.slot, k),
            None => evidence::honest(&mut r, signer, d.slot),
        };
        let mut b = ev.build(&self.keys, self.cfg.seed);
        match d.kind {
            DupKind::Torn(n) => {
                let w = r.idx(2);
                b.shred[w].truncate(n as usize);
            }
            DupKind::Garbage(n) => {
                let w = r.idx(2);
                b.shred[w] = vec![0; n as usize];
                r.fill(&mut b.shred[w]);
            }
            _ => {}
        }
        let node = &self.cluster.nodes[leader];
        let (possible, formed) = match (model::parse(&b.shred[0]), model::parse(&b.shred[1])) {
            (Some(p), Some(q)) => (
                model::conflict(&p, &q, d.slot).is_some() && model::signed_by(&p, node) && model::signed_by(&q, node),
                model::well_formed(&p) && model::well_formed(&q),
            ),
            _ => (false, false),
        };
        (b, leader, possible, possible && formed)
    }

    pub fn env(&mut self, e: &Env) {
        self.note(format!("{e:?}").as_bytes());
        match e {
            Env::Dup(d) => {
                let (b, leader, possible, provable) = self.build(d);
                let ms = self.cluster.ms;
                let [a, c] = b.shred.clone();
                let slot = d.slot;
                let db = self.ledger_db();
                seam::outside(|| {
                    db.store_duplicate_slot(slot, a, c).expect("store");
                    furnish(db, slot, &mut Rng::derive(d.seed, "meta"));
                });
                self.ledger.retain(|x| x.dup.slot != d.slot);
                self.ledger.push(LedgerEntry { dup: *d, shreds: b.shred, ms, leader, possible, provable });
            }
            Env::Report { dup, reporter, dest, pad } => {
                let (b, leader, ..) = self.build(dup);
                // Whoever signed is the violator, leader or not.
                let signer = if dup.kind == DupKind::WrongSigner { (leader + 1) % NODES as usize } else { leader };
                let node = self.cluster.nodes[signer];
                let destination = self.dest(*dest);
                let ok = self.direct_report(&b, node, dup.slot, self.person(*reporter), destination, *pad);
                self.count(if ok { "reports by others" } else { "refused reports by others" }, 1);
                if ok {
                    self.recorded.push(Recorded {
                        address: model::report_address(&node, dup.slot),
                        node,
                        slot: dup.slot,
                        reporter: self.person(*reporter),
                        destination,
                        payable: matches!(dest, Dest::Person(_)),
                        padded: *pad > 0,
                    });
                }
            }
            Env::Slots(n) => self.cluster.skip_slots(*n),
            Env::Epochs(n) => {
                let s = &self.cluster.bank.schedule;
                let next = s.get_first_slot_in_epoch(self.cluster.bank.epoch() + n);
                let now = self.cluster.slot();
                self.cluster.skip_slots(next.saturating_sub(now));
            }
            Env::Junk { id, len, extra } => {
                let k = self.junk_key(*id);
                let lamports = self.cluster.bank.rent.minimum_balance(*len as usize) + extra;
                self.cluster.bank.set(
                    k,
                    Account { lamports, data: vec![0; *len as usize], owner: model::program_id(), executable: false, rent_epoch: u64::MAX },
                );
                self.junk.insert(*id, k);
                self.count("fault:account planted by a stranger", 1);
            }
            Env::Donate { slot, lamports } => {
                let to = self.report_of_slot(*slot);
                let from = self.people[STRANGER as usize].insecure_clone();
                let min = self.cluster.bank.rent.minimum_balance(0);
                let ix = solana_system_interface::instruction::transfer(&from.pubkey(), &to, (*lamports).max(min));
                self.inject(&[ix], &from);
                self.count("fault:donation to a report address", 1);
            }
            Env::Fork { reforward } => {
                self.cluster.fork(*reforward);
                self.count("fault:fork switch", 1);
            }
            Env::Close { slot } => {
                let a = self.report_of_slot(*slot);
                let Some(acc) = self.cluster.bank.get(&a) else { return };
                let Some((h, _, _)) = model::decode_report(acc.data()) else { return };
                let from = self.people[STRANGER as usize].insecure_clone();
                let ix = solana_slashing_program::instruction::close_violation_report(&a, &h.destination);
                if self.inject(&[ix], &from) {
                    self.count("fault:report closed by somebody else", 1);
                }
            }
            Env::Balance(n) => {
                let k = self.person(PAYER);
                let n = (*n).max(self.cluster.bank.rent.minimum_balance(0));
                self.cluster.bank.fund(k, n);
                self.count("payer balance changes", 1);
            }
        }
    }

    fn inject(&mut self, ixs: &[solana_sdk::instruction::Instruction], payer: &Keypair) -> bool {
        self.uniq += 1;
        // A distinct fee-free tweak keeps repeated transactions distinct.
        let mut ixs = ixs.to_vec();
        ixs.push(solana_sdk::compute_budget::ComputeBudgetInstruction::set_compute_unit_price(0));
        ixs.push(solana_sdk::compute_budget::ComputeBudgetInstruction::set_compute_unit_limit(1_000_000 + self.uniq as u32));
        let tx = Transaction::new_signed_with_payer(&ixs, Some(&payer.pubkey()), &[payer], self.cluster.bank.latest_blockhash());
        self.cluster.inject(tx).status.is_ok()
    }

    /// A complete report by a stranger, whose evidence account already exists.
    fn direct_report(&mut self, b: &Built, node: Pubkey, slot: u64, reporter: Pubkey, destination: Pubkey, pad: u16) -> bool {
        use solana_slashing_program::instruction::{duplicate_block_proof_with_sigverify_and_prefund, DuplicateBlockProofInstructionData};
        let from = self.people[STRANGER as usize].insecure_clone();
        self.uniq += 1;
        let proof = det_key(self.cfg.seed ^ (self.uniq << 20), "strangers evidence", 0).pubkey();
        let mut d = vec![0u8; 33];
        d[0] = 1;
        d[1..33].copy_from_slice(from.pubkey().as_ref());
        let mut shreds = b.shred.clone();
        for s in shreds.iter_mut() {
            let n = s.len() + pad as usize;
            s.resize(n, 0xa5);
        }
        for s in &shreds {
            d.extend_from_slice(&(s.len() as u32).to_le_bytes());
            d.extend_from_slice(s);
        }
        let lamports = self.cluster.bank.rent.minimum_balance(d.len());
        let key = proof;
        self.cluster.bank.set(key, Account { lamports, data: d, owner: spl_record::id(), executable: false, rent_epoch: u64::MAX });
        let data = DuplicateBlockProofInstructionData {
            offset: 33u64.into(),
            slot: slot.into(),
            node_pubkey: node,
            reporter,
            destination,
            shred_1_merkle_root: b.root[0].into(),
            shred_1_signature: b.sig[0],
            shred_2_merkle_root: b.root[1].into(),
            shred_2_signature: b.sig[1],
        };
        let rent = self.cluster.bank.rent.clone();
        let mut ixs = duplicate_block_proof_with_sigverify_and_prefund(&proof, &data, Some(&from.pubkey()), &rent).to_vec();
        // Padded evidence needs a larger report account.
        if pad > 0 {
            let pda = model::report_address(&node, slot);
            ixs[0] = solana_system_interface::instruction::transfer(&from.pubkey(), &pda, rent.minimum_balance(4000 + 2 * pad as usize));
        }
        let ok = self.inject(&ixs, &from);
        // The stranger cleans up.
        self.cluster.bank.st.accounts.remove(&key);
        ok
    }

    fn catch_up(&mut self, ms: u64) {
        loop {
            // Whatever is due first: an environment event.
            let start = self.run_start_ms;
            let due = self
                .running
                .iter()
                .enumerate()
                .flat_map(|(i, r)| r.env.iter().enumerate().map(move |(k, e)| (i, k, e)))
                .filter_map(|(i, k, (at, _, done))| match at {
                    At::Ms(t) if !done && start + t <= ms => Some((start + t, i, k)),
                    _ => None,
                })
                .min();
            let Some((t, i, k)) = due else { break };
            self.cluster.advance(t);
            self.running[i].env[k].2 = true;
            let e = self.running[i].env[k].1.clone();
            self.env(&e);
        }
        self.cluster.advance(ms);
    }

    fn begin_request(&mut self, me: usize, method: &str, params: &Value) -> (u32, Option<Fault>, u64, u64, u64, bool) {
        let r = &mut self.running[me];
        let idx = r.idx;
        r.idx += 1;
        let j = r.spec.jitter;
        let acts = if method == "sendTransaction" || method == "simulateTransaction" { decode_acts(params) } else { vec![] };
        let kind = match method {
            "getSlotLeaders" => Kind::Leaders,
            "getAccountInfo" | "getMultipleAccounts" => Kind::Account,
            "getLatestBlockhash" => Kind::Blockhash,
            "getSignatureStatuses" => Kind::Status,
            "getProgramAccounts" => Kind::Programs,
            "getEpochInfo" => Kind::Epoch,
            "simulateTransaction" => Kind::Simulate,
            "sendTransaction" => match acts.first() {
                Some(Act::CreateEvidence(_)) => Kind::Create,
                Some(Act::WriteEvidence(_)) => Kind::Write,
                Some(Act::CloseEvidence(_)) => Kind::CloseEvidence,
                Some(Act::Report { .. }) => Kind::Report,
                Some(Act::CloseReport { .. }) => Kind::CloseReport,
                _ => Kind::Other,
            },
            _ => Kind::Other,
        };
        let nth = r.reqs.iter().filter(|x| x.kind == kind).count() as u32;
        let sig = (method == "getSignatureStatuses").then(|| params[0][0].as_str().unwrap_or("").to_string());
        let arg: String = match &params[0] {
            Value::String(s) if method == "sendTransaction" || method == "simulateTransaction" => {
                tx_of(s).and_then(|t| t.signatures.first().map(|s| s.to_string())).unwrap_or_default()
            }
            v => v.to_string().chars().take(100).collect(),
        };
        let mut q = Req { ms: self.cluster.ms, kind, nth, method: method.into(), acts, fault: None, failed: false, arg, sig };
        q.fault = r.spec.faults.iter().find(|f| q.is(idx, &f.0)).map(|f| f.1);
        let fault = q.fault;
        let mut dead = r.killed;
        if let Some((s, false)) = &r.spec.crash {
            if q.is(idx, s) {
                r.killed = true;
                dead = true;
            }
        }
        r.reqs.push(q);
        if dead {
            self.count("fault:client crash before a request", 1);
        }
        let (there, back, land) = if j == 0 {
            (20, 20, 300)
        } else {
            let mut r = Rng::derive(j ^ ((me as u64) << 32) ^ idx as u64, "latency");
            let tail = |r: &mut Rng, base: u64| if r.pct(8) { base * 10 } else { base };
            (r.range(1, 60), r.range(1, 60), { let b = r.range(50, 700); tail(&mut r, b) })
        };
        (idx, fault, there, back, land, dead)
    }

    fn end_request(&mut self, me: usize, idx: u32, failed: bool) {
        self.running[me].reqs[idx as usize].failed = failed;
    }

    fn serve(&mut self, me: usize, idx: u32, method: &str, params: &Value, fault: Option<Fault>, land: u64) -> Result<Value, crate::cluster::RpcFailure> {
        use crate::cluster::RpcFailure;
        let due: Vec<usize> = self.running[me]
            .env
            .iter()
            .enumerate()
            .filter(|(_, (at, _, done))| matches!(at, At::Request(s) if !done && self.running[me].reqs[idx as usize].is(idx, s)))
            .map(|(k, _)| k)
            .collect();
        for k in due {
            self.running[me].env[k].2 = true;
            let e = self.running[me].env[k].1.clone();
            self.env(&e);
        }
        self.count("requests", 1);
        let name = |f: &Fault| match f {
            Fault::TxDelay(_) => "transaction delayed".to_string(),
            Fault::Stall(_) => "stalled reply".to_string(),
            Fault::DropRequest => "request lost".into(),
            Fault::DropReply => "reply lost".into(),
            Fault::Unhealthy => "node unhealthy".into(),
            Fault::RateLimited => "rate limited".into(),
            Fault::Behind => "node behind".into(),
            Fault::TxLost => "transaction lost".into(),
            Fault::TxTwice => "transaction duplicated".into(),
        };
        if let Some(f) = &fault {
            let n = name(f);
            self.count(&format!("fault:{n}"), 1);
        }
        let origin = self.running[me].id;
        let r = match fault {
            Some(Fault::Unhealthy) => Err(RpcFailure { code: -32005, message: "Node is unhealthy".into(), data: Value::Null }),
            Some(Fault::RateLimited) => Err(RpcFailure { code: 429, message: "Too many requests".into(), data: Value::Null }),
            Some(Fault::Behind) if method == "getSignatureStatuses" => {
                let n = params[0].as_array().map_or(0, |a| a.len());
                Ok(serde_json::json!({"context": {"slot": self.cluster.slot()}, "value": vec![Value::Null; n]}))
            }
            _ => {
                let fate = match fault {
                    Some(Fault::TxLost) => Fate::Lost,
                    Some(Fault::TxDelay(ms)) => Fate::Delayed(ms),
                    Some(Fault::TxTwice) => Fate::Twice,
                    _ => Fate::Normal,
                };
                self.cluster.answer(method, params, origin, land, fate)
            }
        };
        let shape = match &r {
            Ok(v) => format!("{v}"),
            Err(e) => format!("E{} {}", e.code, e.message),
        };
        self.note(format!("{me} {idx} {method} {fault:?} {} {shape}", self.cluster.ms).as_bytes());
        if method == "getProgramAccounts" && r.is_ok() {
            self.running[me].told = Some(reports_in(self.cluster.confirmed()));
        }
        let run = &mut self.running[me];
        if matches!(&run.spec.crash, Some((s, true)) if run.reqs[idx as usize].is(idx, s)) {
            run.killed = true;
            self.count("fault:client crash after a request", 1);
        }
        r
    }

    fn finish(&mut self, me: usize, end: End) {
        let ms = self.cluster.ms;
        let r = &mut self.running[me];
        if r.end.is_none() {
            r.end = Some(end);
            r.end_ms = ms;
        }
    }

    fn args(&mut self, i: &Inst) -> Vec<String> {
        let mut a: Vec<String> = vec!["spl-slashing".into(), "-C".into(), self.dir.join("config.yml").display().to_string()];
        let mut put = |xs: &[&str]| a.extend(xs.iter().map(|s| s.to_string()));
        match i.out {
            Out::Display => {}
            Out::Verbose => put(&["--verbose"]),
            Out::Json => put(&["--output", "json"]),
            Out::JsonCompact => put(&["--output", "json-compact"]),
        }
        if i.dry_run {
            put(&["--dry-run"]);
        }
        if i.payer2 {
            put(&["--fee-payer", &self.dir.join("payer2.json").display().to_string()]);
        }
        match &i.cmd {
            Cmd::Attach { start, end, reporter, dest, continuous, .. } => {
                let l = self.ledger_path().display().to_string();
                put(&["attach", "--ledger", &l]);
                if let Some(s) = start {
                    put(&["--start-slot", &s.to_string()]);
                }
                if let Some(s) = end {
                    put(&["--end-slot", &s.to_string()]);
                }
                if let Some(p) = reporter {
                    put(&["--reporter", &self.person(*p).to_string()]);
                }
                if let Some(p) = dest {
                    put(&["--destination", &self.person(*p).to_string()]);
                }
                if let Some(n) = continuous {
                    put(&["--continuous"]);
                    if *n > 0 {
                        put(&["--scan-interval", &n.to_string()]);
                    }
                }
            }
            Cmd::Close { report, node, reporter, dest } => {
                put(&["close"]);
                if let Some(t) = report {
                    let k = match t {
                        Target::Slot(s) => self.report_of_slot(*s),
                        Target::Junk(i) => self.junk_key(*i),
                    };
                    put(&[&k.to_string()]);
                }
                if let Some(n) = node {
                    put(&["--node-pubkey", &self.keys[*n as usize % NODES as usize].pubkey().to_string()]);
                }
                if let Some(p) = reporter {
                    put(&["--reporter", &self.person(*p).to_string()]);
                }
                if let Some(d) = dest {
                    put(&["--destination", &self.dest(*d).to_string()]);
                }
            }
            Cmd::Display { epoch, node, reporter } => {
                put(&["display"]);
                if let Some(n) = node {
                    put(&[&self.keys[*n as usize % NODES as usize].pubkey().to_string()]);
                }
                if let Some(e) = epoch {
                    put(&["--epoch", &e.to_string()]);
                }
                if let Some(p) = reporter {
                    put(&["--reporter", &self.person(*p).to_string()]);
                }
            }
        }
        a
    }

    /// What the chain records, after every operation: no report changes while it exists.
    pub fn watch_reports(&mut self) {
        let now = self.cluster.reports();
        for (k, (_, d)) in &now {
            match self.first.get(k) {
                Some(f) if f != d => self.fail("C08", format!("report {k} changed after it was recorded")),
                Some(_) => {}
                None => {
                    self.first.insert(*k, d.clone());
                }
            }
        }
        self.first.retain(|k, _| now.contains_key(k));
    }

    /// What this instance got done on chain. Two instances of one payer can send the very same
    /// transaction, it is then the deed of both.
    pub fn done_by(&self, r: &Running) -> Vec<(u64, Act)> {
        let sent: BTreeSet<&str> = r.reqs.iter().filter_map(|q| q.sig.as_deref()).collect();
        self.cluster
            .landed
            .iter()
            .filter(|l| l.status.is_ok() && !l.undone && sent.contains(l.sig.to_string().as_str()))
            .flat_map(|l| l.parsed.iter().map(|a| (l.ms, a.clone())))
            .collect()
    }

    /// Also what a fork switch took back. The client library does not look again
    /// once it has seen a transaction succeed, even if it then fails on the other fork.
    pub fn ever_by(&self, r: &Running) -> Vec<Act> {
        let sent: BTreeSet<&str> = r.reqs.iter().filter_map(|q| q.sig.as_deref()).collect();
        self.cluster
            .landed
            .iter()
            .filter(|l| l.status.is_ok() && sent.contains(l.sig.to_string().as_str()))
            .flat_map(|l| l.parsed.iter().cloned())
            .collect()
    }

    pub fn cleanup(&mut self) {
        let db = self.primary.take();
        seam::outside(|| drop(db));
        let _ = std::env::set_current_dir("/");
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

fn tx_of(s: &str) -> Option<Transaction> {
    use base64::{prelude::BASE64_STANDARD, Engine};
    bincode::deserialize(&BASE64_STANDARD.decode(s).ok()?).ok()
}
fn decode_acts(params: &Value) -> Vec<Act> {
    params[0].as_str().and_then(tx_of).map_or(vec![], |t| parse_tx(&t))
}

/// Where ledgers live while a run needs them; removed with the process.
pub fn scratch_root() -> PathBuf {
    let base = PathBuf::from("/dev/shm");
    let base = if base.is_dir() { base } else { PathBuf::from("/tmp") };
    base.join(format!("slashsim-{}", std::process::id()))
}

async fn instance(me: usize, args: Vec<String>) -> Result<String, String> {
    let debug_build = with(|w| {
        w.count("clients that were debug builds", u64::from(w.cfg.checked));
        w.cfg.checked
    });
    if debug_build {
        client_checked::run(Box::new(Sender { me }), args).await
    } else {
        plain(me, args).await
    }
}

async fn plain(me: usize, args: Vec<String>) -> Result<String, String> {
    use clap::{CommandFactory, Parser};
    let cli = dst::Cli::try_parse_from(&args).map_err(|e| format!("arguments: {e}"))?;
    let matches = dst::Cli::command().try_get_matches_from(&args).map_err(|e| format!("arguments: {e}"))?;
    let command = cli.command.clone();
    let mut wallet = None;
    let mut config = dst::Config::new(cli, matches.clone(), &mut wallet).await;
    let commitment = config.rpc_client.commitment();
    config.rpc_client = Arc::new(RpcClient::new_sender(
        Sender { me },
        RpcClientConfig { commitment_config: commitment, confirm_transaction_initial_timeout: Some(Duration::from_secs(30)) },
    ));
    command.execute(&config, &matches, &mut wallet).await.map_err(|e| e.to_string())
}

/// Virtual time after which a client that should have finished counts as stuck.
fn patience(w: &World, specs: &[Inst]) -> u64 {
    let n = w.ledger.len() as u64 + w.recorded.len() as u64 + w.junk.len() as u64 + 4;
    let faults: u64 = specs.iter().map(|s| s.faults.len() as u64).sum();
    let horizon = specs
        .iter()
        .map(|s| match s.cmd {
            Cmd::Attach { continuous: Some(_), horizon, .. } => horizon + 1,
            _ => 0,
        })
        .max()
        .unwrap_or(0);
    3600_000 + (n + faults) * 600_000 + horizon * 1000
}

/// Runs the instances of one operation to their ends.
pub fn run(specs: &[Inst]) {
    let (limit, base_ms) = with(|w| {
        w.running.clear();
        w.run_start_ms = w.cluster.ms;
        (patience(w, specs), w.cluster.ms)
    });
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    CAPTURE.with(|c| *c.borrow_mut() = Some(Capture::begin()));
    seam::starve_files(false);
    let local = tokio::task::LocalSet::new();
    local.block_on(&rt, async {
        TIME.with(|t| t.set((base_ms * 1_000_000, Some(tokio::time::Instant::now()), 0)));
        let mut handles = vec![];
        for (i, s) in specs.iter().enumerate() {
            let args = with(|w| {
                let args = w.args(s);
                let id = w.counters.get("client runs").copied().unwrap_or(0) as usize;
                w.count("client runs", 1);
                w.running.push(Running {
                    id,
                    spec: s.clone(),
                    idx: 0,
                    out: String::new(),
                    err: String::new(),
                    killed: false,
                    end: None,
                    reqs: vec![],
                    sleeps: vec![],
                    begin_ms: base_ms + s.start_ms,
                    end_ms: 0,
                    told: None,
                    env: s.env.iter().map(|(a, e)| (*a, e.clone(), false)).collect(),
                    over: 0,
                });
                args
            });
            let start = s.start_ms;
            handles.push(tokio::task::spawn_local(async move {
                sleep(start).await;
                let ms = tick();
                with(|w| w.running[i].begin_ms = ms);
                Process { me: i, f: Box::pin(instance(i, args)) }.await;
            }));
        }
        // The environment acts on time even while every client waits.
        let times: BTreeSet<u64> = specs
            .iter()
            .flat_map(|s| s.env.iter())
            .filter_map(|(a, _)| if let At::Ms(t) = a { Some(*t) } else { None })
            .collect();
        tokio::task::spawn_local(async move {
            let start = tokio::time::Instant::now();
            for t in times {
                tokio::time::sleep_until(start + Duration::from_millis(t)).await;
                tick();
            }
        });
        let horizon = specs.iter().any(|s| matches!(s.cmd, Cmd::Attach { continuous: Some(_), .. }));
        let all = async {
            for h in handles.iter_mut() {
                let _ = h.await;
            }
        };
        if tokio::time::timeout(Duration::from_millis(limit), all).await.is_err() {
            tick();
            for i in 0..specs.len() {
                let continuous = matches!(specs[i].cmd, Cmd::Attach { continuous: Some(_), .. });
                with(|w| w.finish(i, if horizon && continuous { End::Killed } else { End::Stuck }));
            }
            for h in &handles {
                h.abort();
            }
        }
        tick();
    });
    drop(local);
    drop(rt);
    seam::starve_files(false);
    TIME.with(|t| t.set((0, None, 0)));
    CAPTURE.with(|c| *c.borrow_mut() = None);
    with(|w| {
        for i in 0..w.running.len() {
            let r = &w.running[i];
            let text = format!("{:?} {} {} {:?} {}", r.end, strip(&r.out), strip(&r.err), r.sleeps, r.end_ms);
            let path = w.dir.display().to_string();
            w.note(text.replace(&path, "DIR").as_bytes());
        }
        // Time that environment events still expect passes.
        let start = w.run_start_ms;
        let last = specs.iter().flat_map(|s| s.env.iter()).filter_map(|(a, _)| if let At::Ms(t) = a { Some(start + t) } else { None }).max();
        let to = w.cluster.ms.max(last.unwrap_or(0));
        w.catch_up(to);
        w.cluster.flush();
    });
}

/// Starts a run; must be paired with `leave`.
pub fn enter(cfg: &Config) {
    seam::activate(cfg.seed, on_sleep);
    let w = World::new(cfg);
    std::env::set_current_dir(&w.dir).unwrap();
    W.with(|x| *x.borrow_mut() = Some(w));
}
thread_local! {
    /// Development aid: what went into the hash.
    static LOG: RefCell<Vec<String>> = const { RefCell::new(vec![]) };
}

pub fn leave() -> World {
    for l in LOG.with(|l| std::mem::take(&mut *l.borrow_mut())) {
        eprintln!("{l}");
    }
    let mut w = W.with(|x| x.borrow_mut().take()).expect("no world");
    w.cleanup();
    seam::deactivate();
    w
}

/// Without terminal colours.
pub fn strip(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\u{1b}' {
            for d in it.by_ref() {
                if d.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            out.push(c);
        }
    }
    out
}


/// What else a validator's ledger says about slots: some it received, abandoned or rooted, which
/// has nothing to do with whether they are duplicates.
fn furnish(db: &Blockstore, slot: u64, r: &mut Rng) {
    let meta = |slot: u64| SlotMeta { slot, ..SlotMeta::default() };
    if r.coin() {
        db.put_meta(slot, &meta(slot)).expect("meta");
    }
    if r.pct(25) {
        let ahead = slot + r.below(200);
        db.put_meta(ahead, &meta(ahead)).expect("meta");
    }
    if r.pct(25) {
        db.set_dead_slot(slot).expect("dead");
    }
    if r.pct(25) {
        let rooted = slot + if r.coin() { 0 } else { r.below(40) };
        db.set_roots([rooted].iter()).expect("root");
    }
}

/// Development aid: a ledger directory with the duplicate proofs of `slots`. A proof with an
/// unreadable shred for slots given with a trailing `x`, a rooted slot for a trailing `r`,
/// shreds of slots ahead for a trailing `a`.
pub fn make_ledger(dir: &std::path::Path, slots: &[String]) {
    let keys = [det_key(7, "ledger", 0)];
    let db = Blockstore::open_with_options(dir, BlockstoreOptions { enforce_ulimit_nofile: false, ..BlockstoreOptions::default() }).unwrap();
    for s in slots {
        let slot: u64 = s.trim_end_matches(['x', 'r', 'a']).parse().unwrap();
        let mut r = Rng::derive(slot, "dup");
        let mut shred = evidence::genuine(&mut r, 0, slot, Conflict::MerkleRoot).build(&keys, 7).shred;
        if s.ends_with('x') {
            shred[1].truncate(40);
        }
        let [a, c] = shred;
        db.store_duplicate_slot(slot, a, c).unwrap();
        if s.ends_with('r') {
            db.set_roots([slot].iter()).unwrap();
        }
        if s.ends_with('a') {
            db.put_meta(slot + 100, &SlotMeta { slot: slot + 100, ..SlotMeta::default() }).unwrap();
        }
    }
}
