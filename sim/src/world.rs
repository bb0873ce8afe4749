//! The program-level world: reporters, adversaries, bystanders, a lossy network and a forking
//! cluster around the slashing program, with a reference interpreter checking every transaction.
use {
    crate::{
        chain::{wrapper, Bank, BankSnapshot, Genesis, TxResult},
        evidence::{unrelated_message, Built, Evidence},
        model::{self, report_address, Header, HEADER_LEN},
        svm::{CrashKind, CrashPlan, Outcome},
    },
    serde_derive::{Deserialize, Serialize},
    solana_sdk::{
        account::{Account, AccountSharedData, ReadableAccount},
        compute_budget::ComputeBudgetInstruction,
        ed25519_program,
        instruction::{AccountMeta, Instruction},
        pubkey::Pubkey,
        signature::{keypair_from_seed, Keypair},
        signer::Signer,
        system_instruction, system_program, sysvar,
        transaction::Transaction,
    },
    std::collections::{BTreeMap, BTreeSet},
};

pub const NODES: u8 = 3;
/// Key number of the adversary's own validator.
pub const ATTACKER: u8 = 3;
pub const PEOPLE: u8 = 5;
/// The person who is nearly broke.
pub const POOR: u8 = 4;

pub const OFF_NODE: u16 = 17;
pub const OFF_REPORTER: u16 = 49;
pub const OFF_DEST: u16 = 81;
pub const OFF_ROOT: [u16; 2] = [113, 209];
pub const OFF_SIG: [u16; 2] = [145, 241];
pub const IX_LEN: usize = 305;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Config {
    pub seed: u64,
    pub slots_per_epoch: u64,
    pub start_slot: u64,
    pub lamports_per_byte_year: u64,
    /// Epochs start short and double up to their full length.
    #[serde(default)]
    pub warmup: bool,
    /// Runs the program's debug build.
    #[serde(default)]
    pub checked: bool,
    #[serde(default)]
    pub leader_offset: u64,
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Addr {
    Person(u8),
    Node(u8),
    Fresh(u8),
    Report { node: u8, slot: u64 },
    Clock,
    Slashing,
    System,
    InstructionsSysvar,
    Record,
    Junk(u8),
    /// A system account holding its rent-exempt minimum exactly.
    Minimal,
    Default,
    /// An ordinary account whose content imitates the instructions sysvar of a verified report.
    FakeInstructions,
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Loc {
    /// Where the documented layout has it, in the slashing instruction.
    Canon,
    /// Same offset in the decoy instruction at index 0.
    Decoy,
    /// The reporter field of the slashing instruction.
    Reporter,
    /// The destination field of the slashing instruction.
    Dest,
    /// The canonical location of the other piece of evidence.
    Cross,
    /// Same offset in the verification instruction itself, by the precompile's own way of saying
    /// so (index 65535) or by its actual index.
    Own,
    OwnIndex,
    /// The offset of the reporter field in the verification instruction itself.
    OwnReporter,
    OwnDest,
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct Entry {
    pub pk: Loc,
    pub msg: Loc,
    pub sig: Loc,
    pub size: u16,
}
impl Entry {
    pub const CANON: Entry = Entry {
        pk: Loc::Canon,
        msg: Loc::Canon,
        sig: Loc::Canon,
        size: 32,
    };
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Place {
    Before,
    Gap,
    After,
    Nowhere,
    /// Same bytes, addressed to a program that ignores them.
    OtherProgram,
}

/// What the decoy instruction carries at the canonical offsets.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Decoy {
    None,
    /// The adversary's key and its signatures over the claimed roots.
    Adversary,
    /// The accused node's genuine signature over something unrelated, twice.
    Unrelated,
    /// The real thing.
    Copy,
}
impl Decoy {
    fn none() -> Self {
        Self::None
    }
}

/// How the signature verification and the slashing instruction are laid out.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Form {
    /// What `duplicate_block_proof_with_sigverify_and_prefund` builds.
    Canonical,
    Custom {
        place: Place,
        /// The first two bytes of the precompile's data.
        count: (u8, u8),
        entries: Vec<Entry>,
        decoy: Decoy,
        /// What the verification instruction carries behind its offsets.
        #[serde(default = "Decoy::none")]
        own: Decoy,
        fund: Fund,
    },
    /// The slashing program is called by another program whose own instruction data is `outer`.
    Nested { outer: Decoy, fund: Fund, sigs: bool },
    /// A second slashing instruction right behind the first; the verification covers the first.
    Twice { second: Box<Evidence> },
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Fund {
    None,
    /// Relative to the exact rent-exempt minimum of the report, on top of the present balance.
    Exact(i64),
    Max,
    /// More than the documented amount.
    Over(u64),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct ProofForm {
    pub prefix: u32,
    pub tail: u16,
    pub offset: Option<u64>,
    pub cut: Option<u16>,
    pub len1: Option<u32>,
    pub len2: Option<u32>,
}
impl ProofForm {
    pub const NORMAL: ProofForm = ProofForm {
        prefix: 33,
        tail: 0,
        offset: None,
        cut: None,
        len1: None,
        len2: None,
    };
    fn regular(&self) -> bool {
        self.offset.is_none() && self.cut.is_none() && self.len1.is_none() && self.len2.is_none()
    }
}

/// Deviations in the account list or data of the slashing instruction.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Twist {
    None,
    ReportAccount(Addr),
    ProofAccount(Addr),
    InstructionsAccount(Addr),
    SystemAccount(Addr),
    DropAccounts(u8),
    ExtraAccount,
    DataLen(i8),
    /// Slot in the instruction data differs from the evidence's.
    Slot(i64),
    /// The claimed roots and signatures are given in the other order than the evidence.
    SwapRoots,
    ReportReadonly,
    /// Raw contents for the reporter field: adversary's key / an unrelated signed message.
    ReporterField { unrelated: bool },
    DestField { unrelated: bool },
    /// The accused node's key in these fields.
    ReporterIsNode,
    DestIsNode,
    /// Every account that may be is passed as writable, and the payer on top.
    Writable { payer: bool },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct ReportOp {
    pub ev: Evidence,
    pub reporter: u8,
    pub dest: Addr,
    pub form: Form,
    pub proof: ProofForm,
    pub twist: Twist,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct CloseOp {
    pub report: Addr,
    pub dest: Addr,
    pub nested: bool,
    pub dest_readonly: bool,
    pub extra: bool,
    pub trailing: u8,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Step {
    Report(ReportOp),
    Close(CloseOp),
    Transfer { to: Addr, lamports: u64 },
    Raw { data: Vec<u8>, accounts: Vec<(Addr, bool)>, with_sig: Option<Vec<u8>> },
    Fail,
    Budget,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct TxOp {
    pub steps: Vec<Step>,
    pub payer: u8,
    pub crash: Option<CrashPlan>,
    /// Delivery times of the copies the network makes, in operations from now. Empty: lost.
    pub copies: Vec<u8>,
    /// How many blocks old the blockhash is.
    pub age: u8,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    Slots(u64),
    /// To slot `off` of the n-th next epoch.
    Epochs(u64, u64),
    /// The cluster switches to a fork branching off before the last n clock changes.
    Fork(u8),
    /// The same attempt cut short at every possible point, each followed by a retry.
    CrashSweep(TxOp),
    Tx(TxOp),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Violation {
    pub property: String,
    pub what: String,
    pub op: usize,
}

#[derive(Clone, Debug)]
pub struct RecordedReport {
    pub account: AccountSharedData,
    pub header: Header,
    /// Donations after recording etc. do not matter: identity of the record.
    pub bytes: Vec<u8>,
}

#[derive(Clone, Default)]
pub struct Model {
    pub reports: BTreeMap<Pubkey, RecordedReport>,
    pub ever: BTreeMap<(Pubkey, u64), u32>,
}

#[derive(Clone)]
struct Ix {
    ix: Instruction,
}

#[derive(Clone)]
struct Pending {
    tx: Transaction,
    crash: Option<CrashPlan>,
    op: TxOp,
    due: usize,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub txs: u64,
    pub landed: u64,
    pub ok: u64,
    pub recorded: u64,
    pub closed: u64,
    pub faults: BTreeMap<String, u64>,
    pub kinds: BTreeMap<String, u64>,
    pub must_accept: u64,
    pub must_close: u64,
    pub refused: BTreeMap<String, u64>,
    pub window_edges: u64,
    pub crash_points: u64,
    pub slots: u64,
    /// Per property: how often this run met the situation the property is about.
    pub probes: BTreeMap<&'static str, u64>,
}

impl Stats {
    fn probe(&mut self, p: &'static str) {
        *self.probes.entry(p).or_default() += 1;
    }
    pub fn counters(&self) -> BTreeMap<String, u64> {
        let mut c = BTreeMap::new();
        let mut put = |k: String, v: u64| {
            if v > 0 {
                c.insert(k, v);
            }
        };
        put("transactions".into(), self.txs);
        put("transactions_landed".into(), self.landed);
        put("transactions_succeeded".into(), self.ok);
        put("reports_recorded".into(), self.recorded);
        put("reports_closed".into(), self.closed);
        put("obliged_to_record".into(), self.must_accept);
        put("obliged_to_close".into(), self.must_close);
        put("recorded_at_window_edge".into(), self.window_edges);
        put("crash_points_swept".into(), self.crash_points);
        put("simulated_slots".into(), self.slots);
        for (k, v) in &self.faults {
            put(format!("fault:{k}"), *v);
        }
        for (k, v) in &self.kinds {
            put(format!("recorded_conflict:{k}"), *v);
        }
        for (k, v) in &self.refused {
            put(format!("refused:{k}"), *v);
        }
        for (k, v) in &self.probes {
            put(format!("probe:{k}"), *v);
        }
        c
    }
}

pub struct World {
    pub cfg: Config,
    pub bank: Bank,
    pub model: Model,
    pub keys: Vec<Keypair>,
    pub people: Vec<Keypair>,
    pub violations: Vec<Violation>,
    pub stats: Stats,
    pub op_no: usize,
    pool: Vec<Pending>,
    forks: Vec<(BankSnapshot, Model)>,
    trace_hash: u64,
    uniq: u64,
}

fn fnv(h: u64, b: &[u8]) -> u64 {
    b.iter()
        .fold(h, |h, x| (h ^ *x as u64).wrapping_mul(0x0000_0100_0000_01b3))
}

pub fn det_key(seed: u64, label: &str, i: u8) -> Keypair {
    let s = model::sha(&[b"key", &seed.to_le_bytes(), label.as_bytes(), &[i]]);
    keypair_from_seed(&s).unwrap()
}

pub fn ed25519_data(count: (u8, u8), entries: &[[u16; 7]]) -> Vec<u8> {
    let mut d = vec![count.0, count.1];
    for e in entries {
        for x in e {
            d.extend_from_slice(&x.to_le_bytes());
        }
    }
    d
}

fn fake_instructions() -> Vec<u8> {
    let rows: Vec<[u16; 7]> = (0..2)
        .map(|k| [OFF_SIG[k], 2, OFF_NODE, 2, OFF_ROOT[k], 32, 2])
        .collect();
    let sig = ed25519_data((2, 0), &rows);
    let (noop, ed) = (wrapper::id(), ed25519_program::id());
    use solana_program::sysvar::instructions::BorrowedInstruction;
    let ix = |program_id, data| BorrowedInstruction {
        program_id,
        accounts: vec![],
        data,
    };
    let mut d = sysvar::instructions::construct_instructions_data(&[
        ix(&noop, &[0u8][..]),
        ix(&ed, &sig[..]),
        ix(&noop, &[0u8][..]),
    ]);
    sysvar::instructions::store_current_index(&mut d, 2);
    d
}

/// Report content as documented.
pub fn report_bytes(h: &Header, s1: &[u8], s2: &[u8]) -> Vec<u8> {
    let mut d = vec![h.version];
    d.extend_from_slice(h.reporter.as_ref());
    d.extend_from_slice(h.destination.as_ref());
    d.extend_from_slice(&h.epoch.to_le_bytes());
    d.extend_from_slice(h.node.as_ref());
    d.extend_from_slice(&h.slot.to_le_bytes());
    d.push(h.kind);
    for s in [s1, s2] {
        d.extend_from_slice(&(s.len() as u32).to_le_bytes());
        d.extend_from_slice(s);
    }
    d
}

struct SlashArgs {
    offset: u64,
    slot: u64,
    node: Pubkey,
    reporter: [u8; 32],
    dest: [u8; 32],
    root: [[u8; 32]; 2],
    sig: [[u8; 64]; 2],
}
impl SlashArgs {
    fn encode(&self) -> Vec<u8> {
        let mut d = vec![1u8];
        d.extend_from_slice(&self.offset.to_le_bytes());
        d.extend_from_slice(&self.slot.to_le_bytes());
        d.extend_from_slice(self.node.as_ref());
        d.extend_from_slice(&self.reporter);
        d.extend_from_slice(&self.dest);
        for k in 0..2 {
            d.extend_from_slice(&self.root[k]);
            d.extend_from_slice(&self.sig[k]);
        }
        assert_eq!(d.len(), IX_LEN);
        d
    }
}

/// Reads a proof the way the documentation describes the account's content.
fn read_proof(d: &[u8]) -> Option<(Vec<u8>, Vec<u8>)> {
    let l1 = u32::from_le_bytes(d.get(..4)?.try_into().unwrap()) as usize;
    let s1 = d.get(4..4usize.checked_add(l1)?)?;
    let r = &d[4 + l1..];
    let l2 = u32::from_le_bytes(r.get(..4)?.try_into().unwrap()) as usize;
    let s2 = r.get(4..4usize.checked_add(l2)?)?;
    Some((s1.to_vec(), s2.to_vec()))
}

impl World {
    pub fn new(cfg: &Config) -> Self {
        let mut bank = Bank::new(&Genesis {
            slots_per_epoch: cfg.slots_per_epoch,
            start_slot: cfg.start_slot,
            lamports_per_byte_year: cfg.lamports_per_byte_year,
            fork_id: cfg.seed,
            warmup: cfg.warmup,
            checked: cfg.checked,
            leader_offset: if cfg.leader_offset == 0 { cfg.slots_per_epoch } else { cfg.leader_offset },
        });
        let keys: Vec<_> = (0..=NODES).map(|i| det_key(cfg.seed, "node", i)).collect();
        let people: Vec<_> = (0..PEOPLE)
            .map(|i| det_key(cfg.seed, "person", i))
            .collect();
        let unit = bank.rent.minimum_balance(0).max(1_000_000);
        for (i, p) in people.iter().enumerate() {
            let l = if i as u8 == POOR {
                bank.rent.minimum_balance(0) + bank.rent.minimum_balance(1000) + 50_000
            } else {
                unit * 1_000_000
            };
            bank.fund(p.pubkey(), l);
        }
        for k in &keys {
            bank.fund(k.pubkey(), unit * 10);
        }
        let minimal = bank.rent.minimum_balance(0);
        bank.fund(det_key(cfg.seed, "minimal", 0).pubkey(), minimal);
        let mut w = Self {
            cfg: cfg.clone(),
            bank,
            model: Model::default(),
            keys,
            people,
            violations: vec![],
            stats: Stats::default(),
            op_no: 0,
            pool: vec![],
            forks: vec![],
            trace_hash: 0xcbf2_9ce4_8422_2325,
            uniq: 0,
        };
        let fake = fake_instructions();
        let k = w.addr(Addr::FakeInstructions);
        let lamports = w.bank.rent.minimum_balance(fake.len());
        w.bank.set(
            k,
            Account {
                lamports,
                data: fake,
                owner: spl_record::id(),
                executable: false,
                rent_epoch: u64::MAX,
            },
        );
        for i in 0..4 {
            // Accounts a stranger made the program own.
            let len = [1usize, 113, 114, 400][i as usize];
            let k = w.addr(Addr::Junk(i));
            let lamports = w.bank.rent.minimum_balance(len);
            w.bank.set(
                k,
                Account {
                    lamports,
                    data: vec![0; len],
                    owner: model::program_id(),
                    executable: false,
                    rent_epoch: u64::MAX,
                },
            );
        }
        w
    }

    pub fn slot(&self) -> u64 {
        self.bank.st.slot
    }
    pub fn state_hash(&self) -> u64 {
        let mut h = self.trace_hash;
        for (k, a) in &self.bank.st.accounts {
            h = fnv(h, k.as_ref());
            h = fnv(h, &a.lamports().to_le_bytes());
            h = fnv(h, a.data());
        }
        h
    }

    pub fn node(&self, i: u8) -> Pubkey {
        self.keys[i as usize % self.keys.len()].pubkey()
    }
    pub fn addr(&self, a: Addr) -> Pubkey {
        match a {
            Addr::Person(i) => self.people[i as usize % self.people.len()].pubkey(),
            Addr::Node(i) => self.node(i),
            Addr::Fresh(i) => det_key(self.cfg.seed, "fresh", i).pubkey(),
            Addr::Report { node, slot } => report_address(&self.node(node), slot),
            Addr::Clock => sysvar::clock::id(),
            Addr::Slashing => model::program_id(),
            Addr::System => system_program::id(),
            Addr::InstructionsSysvar => sysvar::instructions::id(),
            Addr::Record => spl_record::id(),
            Addr::Junk(i) => det_key(self.cfg.seed, "junk", i).pubkey(),
            Addr::Minimal => det_key(self.cfg.seed, "minimal", 0).pubkey(),
            Addr::Default => Pubkey::default(),
            Addr::FakeInstructions => det_key(self.cfg.seed, "fake-instructions", 0).pubkey(),
        }
    }

    fn violate(&mut self, property: &str, what: String) {
        self.violations.push(Violation {
            property: property.into(),
            what,
            op: self.op_no,
        });
    }
    pub fn note_fault(&mut self, kind: &str) {
        *self.stats.faults.entry(kind.into()).or_default() += 1;
    }

    // ---------------------------------------------------------------- building transactions

    fn min_balance(&self, len: usize) -> u64 {
        self.bank.rent.minimum_balance(len)
    }

    /// Puts the evidence on chain and returns its account.
    fn put_proof(&mut self, b: &Built, f: &ProofForm) -> Pubkey {
        let mut d = vec![0x5au8; f.prefix as usize];
        for k in 0..2 {
            let l = [f.len1, f.len2][k].unwrap_or(b.shred[k].len() as u32);
            d.extend_from_slice(&l.to_le_bytes());
            d.extend_from_slice(&b.shred[k]);
        }
        d.resize(d.len() + f.tail as usize, 0xa5);
        if let Some(c) = f.cut {
            d.truncate(c as usize);
        }
        let key = Pubkey::new_from_array(model::sha(&[b"proof", &d]));
        let lamports = self.min_balance(d.len());
        if self.bank.get(&key).is_none() {
            self.bank.set(
                key,
                Account {
                    lamports,
                    data: d,
                    owner: spl_record::id(),
                    executable: false,
                    rent_epoch: u64::MAX,
                },
            );
        }
        key
    }

    fn fund_amount(&self, fund: Fund, pda: &Pubkey, len: usize) -> Option<u64> {
        match fund {
            Fund::None => None,
            Fund::Max => Some(self.min_balance(model::MAX_REPORT_LEN)),
            Fund::Over(d) => Some(self.min_balance(model::MAX_REPORT_LEN) + d),
            Fund::Exact(d) => {
                let need = (self.min_balance(len) as i64 + d).max(0) as u64;
                let have = self.bank.lamports(pda);
                (need > have).then(|| need - have)
            }
        }
    }

    fn build_report(&mut self, r: &ReportOp, payer: &Pubkey, out: &mut Vec<Ix>) {
        let built = r.ev.build(&self.keys, self.cfg.seed);
        let proof = self.put_proof(&built, &r.proof);
        let node = self.node(r.ev.node);
        let unrelated = unrelated_message(self.cfg.seed, r.ev.node);
        let mut a = SlashArgs {
            offset: r.proof.offset.unwrap_or(r.proof.prefix as u64),
            slot: r.ev.slot,
            node,
            reporter: self.addr(Addr::Person(r.reporter)).to_bytes(),
            dest: self.addr(r.dest).to_bytes(),
            root: built.root,
            sig: built.sig,
        };
        if let Twist::Slot(d) = r.twist {
            a.slot = a.slot.wrapping_add(d as u64);
        }
        let pda = report_address(&node, a.slot);
        let len = HEADER_LEN + 8 + built.shred[0].len() + built.shred[1].len();
        if r.form == Form::Canonical {
            // The library's own builder.
            let mut data = solana_slashing_program::instruction::DuplicateBlockProofInstructionData {
                offset: a.offset.into(),
                slot: a.slot.into(),
                node_pubkey: node,
                reporter: Pubkey::new_from_array(a.reporter),
                destination: Pubkey::new_from_array(a.dest),
                shred_1_merkle_root: a.root[0].into(),
                shred_1_signature: a.sig[0],
                shred_2_merkle_root: a.root[1].into(),
                shred_2_signature: a.sig[1],
            };
            if r.twist == Twist::SwapRoots {
                std::mem::swap(&mut data.shred_1_merkle_root, &mut data.shred_2_merkle_root);
                std::mem::swap(&mut data.shred_1_signature, &mut data.shred_2_signature);
            }
            let rent = self.bank.rent.clone();
            // Left out, the funder is the reporter.
            let funder = Some(payer).filter(|p| **p != data.reporter);
            for ix in solana_slashing_program::instruction::duplicate_block_proof_with_sigverify_and_prefund(
                &proof, &data, funder, &rent,
            ) {
                out.push(Ix { ix });
            }
            return;
        }
        match r.twist {
            Twist::SwapRoots => {
                a.root.swap(0, 1);
                a.sig.swap(0, 1);
            }
            Twist::ReporterField { unrelated: u } => {
                a.reporter = if u { unrelated } else { self.node(ATTACKER).to_bytes() }
            }
            Twist::DestField { unrelated: u } => {
                a.dest = if u { unrelated } else { self.node(ATTACKER).to_bytes() }
            }
            Twist::ReporterIsNode => a.reporter = node.to_bytes(),
            Twist::DestIsNode => a.dest = node.to_bytes(),
            _ => {}
        }
        let mut data = a.encode();
        if let Twist::DataLen(n) = r.twist {
            let l = (data.len() as i64 + n as i64).max(0) as usize;
            data.resize(l, 7);
        }
        let mut metas = vec![
            AccountMeta::new_readonly(proof, false),
            AccountMeta::new(pda, false),
            AccountMeta::new_readonly(sysvar::instructions::id(), false),
            AccountMeta::new_readonly(system_program::id(), false),
        ];
        match r.twist {
            Twist::ReportAccount(x) => metas[1].pubkey = self.addr(x),
            Twist::ProofAccount(x) => metas[0].pubkey = self.addr(x),
            Twist::InstructionsAccount(x) => metas[2].pubkey = self.addr(x),
            Twist::SystemAccount(x) => metas[3].pubkey = self.addr(x),
            Twist::DropAccounts(n) => metas.truncate(4usize.saturating_sub(n as usize)),
            Twist::ExtraAccount => metas.push(AccountMeta::new_readonly(proof, false)),
            Twist::ReportReadonly => metas[1].is_writable = false,
            Twist::Writable { payer: with_payer } => {
                for m in &mut metas {
                    m.is_writable = true;
                }
                if with_payer {
                    metas.push(AccountMeta::new(*payer, true));
                }
            }
            _ => {}
        }
        let slash = Instruction {
            program_id: model::program_id(),
            accounts: metas,
            data,
        };
        let blob = |kind: Decoy, keys: &[Keypair]| -> Vec<u8> {
            let mut d = vec![0u8; IX_LEN];
            let (pk, root, sig): (Pubkey, [[u8; 32]; 2], [[u8; 64]; 2]) = match kind {
                Decoy::None | Decoy::Copy => (node, a.root, a.sig),
                Decoy::Adversary => {
                    let k = &keys[ATTACKER as usize];
                    (
                        k.pubkey(),
                        a.root,
                        [k.sign_message(&a.root[0]).into(), k.sign_message(&a.root[1]).into()],
                    )
                }
                Decoy::Unrelated => {
                    let k = &keys[r.ev.node as usize % keys.len()];
                    let s: [u8; 64] = k.sign_message(&unrelated).into();
                    (k.pubkey(), [unrelated; 2], [s; 2])
                }
            };
            d[OFF_NODE as usize..][..32].copy_from_slice(pk.as_ref());
            for k in 0..2 {
                d[OFF_ROOT[k] as usize..][..32].copy_from_slice(&root[k]);
                d[OFF_SIG[k] as usize..][..64].copy_from_slice(&sig[k]);
            }
            d
        };
        let base = out.len() as u16;
        match &r.form {
            Form::Canonical => unreachable!(),
            Form::Custom {
                place,
                count,
                entries,
                decoy,
                own,
                fund,
            } => {
                let mut idx = base;
                let decoy_idx = idx;
                if *decoy != Decoy::None {
                    out.push(Ix {
                        ix: Instruction {
                            program_id: wrapper::id(),
                            accounts: vec![],
                            data: blob(*decoy, &self.keys),
                        },
                    });
                    idx += 1;
                }
                if let Some(l) = self.fund_amount(*fund, &pda, len) {
                    out.push(Ix {
                        ix: system_instruction::transfer(payer, &pda, l),
                    });
                    idx += 1;
                }
                let slash_idx = match place {
                    Place::Before | Place::OtherProgram => idx + 1,
                    Place::Gap => idx + 2,
                    Place::After | Place::Nowhere => idx,
                };
                let own_idx = match place {
                    Place::After | Place::Nowhere => idx + 1,
                    _ => idx,
                };
                let rows: Vec<[u16; 7]> = entries
                    .iter()
                    .enumerate()
                    .map(|(k, e)| {
                        let k = k & 1;
                        let at = |l: Loc, canon: u16, cross: u16| match l {
                            Loc::Canon => (canon, slash_idx),
                            Loc::Decoy => (canon, decoy_idx),
                            Loc::Reporter => (OFF_REPORTER, slash_idx),
                            Loc::Dest => (OFF_DEST, slash_idx),
                            Loc::Cross => (cross, slash_idx),
                            Loc::Own => (canon, u16::MAX),
                            Loc::OwnIndex => (canon, own_idx),
                            Loc::OwnReporter => (OFF_REPORTER, u16::MAX),
                            Loc::OwnDest => (OFF_DEST, u16::MAX),
                        };
                        let s = at(e.sig, OFF_SIG[k], OFF_SIG[1 - k]);
                        let p = at(e.pk, OFF_NODE, OFF_NODE);
                        let m = at(e.msg, OFF_ROOT[k], OFF_ROOT[1 - k]);
                        [s.0, s.1, p.0, p.1, m.0, e.size, m.1]
                    })
                    .collect();
                let mut sig_data = ed25519_data(*count, &rows);
                if *own != Decoy::None {
                    let d = blob(*own, &self.keys);
                    let from = sig_data.len();
                    sig_data.resize(d.len().max(from), 0);
                    sig_data[from..d.len()].copy_from_slice(&d[from..]);
                    for at in [OFF_REPORTER as usize, OFF_DEST as usize] {
                        if at >= from {
                            sig_data[at..at + 32].copy_from_slice(&d[OFF_NODE as usize..][..32]);
                        }
                    }
                }
                let sig = Instruction {
                    program_id: if *place == Place::OtherProgram {
                        wrapper::id()
                    } else {
                        ed25519_program::id()
                    },
                    accounts: vec![],
                    data: sig_data,
                };
                let noop = Instruction {
                    program_id: wrapper::id(),
                    accounts: vec![],
                    data: vec![0],
                };
                match place {
                    Place::Before | Place::OtherProgram => {
                        out.push(Ix { ix: sig });
                        out.push(Ix { ix: slash });
                    }
                    Place::Gap => {
                        out.push(Ix { ix: sig });
                        out.push(Ix { ix: noop });
                        out.push(Ix { ix: slash });
                    }
                    Place::After => {
                        out.push(Ix { ix: slash });
                        out.push(Ix { ix: sig });
                    }
                    Place::Nowhere => out.push(Ix { ix: slash }),
                }
            }
            Form::Nested { outer, fund, sigs } => {
                let mut idx = base;
                if let Some(l) = self.fund_amount(*fund, &pda, len) {
                    out.push(Ix {
                        ix: system_instruction::transfer(payer, &pda, l),
                    });
                    idx += 1;
                }
                if *sigs {
                    let i = idx + 1;
                    let rows: Vec<[u16; 7]> = (0..2)
                        .map(|k| [OFF_SIG[k], i, OFF_NODE, i, OFF_ROOT[k], 32, i])
                        .collect();
                    out.push(Ix {
                        ix: Instruction {
                            program_id: ed25519_program::id(),
                            accounts: vec![],
                            data: ed25519_data((2, 0), &rows),
                        },
                    });
                }
                let mut d = blob(*outer, &self.keys);
                d[0] = 0xc1;
                let at = d.len() as u16;
                d[1..3].copy_from_slice(&at.to_le_bytes());
                d.extend_from_slice(&slash.data);
                let mut accounts = vec![AccountMeta::new_readonly(model::program_id(), false)];
                accounts.extend(slash.accounts.clone());
                out.push(Ix {
                    ix: Instruction {
                        program_id: wrapper::id(),
                        accounts,
                        data: d,
                    },
                });
            }
            Form::Twice { second } => {
                if let Some(l) = self.fund_amount(Fund::Max, &pda, len) {
                    out.push(Ix {
                        ix: system_instruction::transfer(payer, &pda, l),
                    });
                }
                let i = out.len() as u16 + 1;
                let rows: Vec<[u16; 7]> = (0..2)
                    .map(|k| [OFF_SIG[k], i, OFF_NODE, i, OFF_ROOT[k], 32, i])
                    .collect();
                out.push(Ix {
                    ix: Instruction {
                        program_id: ed25519_program::id(),
                        accounts: vec![],
                        data: ed25519_data((2, 0), &rows),
                    },
                });
                out.push(Ix { ix: slash });
                let b2 = second.build(&self.keys, self.cfg.seed);
                let proof2 = self.put_proof(&b2, &ProofForm::NORMAL);
                let node2 = self.node(second.node);
                let pda2 = report_address(&node2, second.slot);
                let d2 = SlashArgs {
                    offset: 33,
                    slot: second.slot,
                    node: node2,
                    root: b2.root,
                    sig: b2.sig,
                    ..a
                };
                // Funded beforehand out of band, the size limit leaves no room here.
                if self.bank.get(&pda2).is_none() {
                    let l = self.min_balance(model::MAX_REPORT_LEN);
                    self.bank.fund(pda2, l);
                }
                out.push(Ix {
                    ix: Instruction {
                        program_id: model::program_id(),
                        accounts: vec![
                            AccountMeta::new_readonly(proof2, false),
                            AccountMeta::new(pda2, false),
                            AccountMeta::new_readonly(sysvar::instructions::id(), false),
                            AccountMeta::new_readonly(system_program::id(), false),
                        ],
                        data: d2.encode(),
                    },
                });
            }
        }
    }

    fn build_steps(&mut self, op: &TxOp) -> Vec<Instruction> {
        let payer = self.addr(Addr::Person(op.payer));
        let mut out: Vec<Ix> = vec![];
        for s in &op.steps {
            match s {
                Step::Report(r) => self.build_report(r, &payer, &mut out),
                Step::Close(c) => {
                    let (report, dest) = (self.addr(c.report), self.addr(c.dest));
                    let mut ix = if c.nested || c.trailing > 0 {
                        let mut data = vec![0u8];
                        data.resize(1 + c.trailing as usize, 9);
                        Instruction {
                            program_id: model::program_id(),
                            accounts: vec![AccountMeta::new(report, false), AccountMeta::new(dest, false)],
                            data,
                        }
                    } else {
                        solana_slashing_program::instruction::close_violation_report(&report, &dest)
                    };
                    if c.dest_readonly {
                        if let Some(m) = ix.accounts.get_mut(1) {
                            m.is_writable = false;
                        }
                    }
                    if c.extra {
                        ix.accounts.push(AccountMeta::new(payer, true));
                    }
                    if c.nested {
                        let mut data = vec![0xc1, 3, 0];
                        data.extend_from_slice(&ix.data);
                        let mut accounts = vec![AccountMeta::new_readonly(model::program_id(), false)];
                        accounts.extend(ix.accounts);
                        ix = Instruction {
                            program_id: wrapper::id(),
                            accounts,
                            data,
                        };
                    }
                    out.push(Ix { ix });
                }
                Step::Transfer { to, lamports } => out.push(Ix {
                    ix: system_instruction::transfer(&payer, &self.addr(*to), *lamports),
                }),
                Step::Raw {
                    data,
                    accounts,
                    with_sig,
                } => {
                    if let Some(d) = with_sig {
                        out.push(Ix {
                            ix: Instruction {
                                program_id: ed25519_program::id(),
                                accounts: vec![],
                                data: d.clone(),
                            },
                        });
                    }
                    out.push(Ix {
                        ix: Instruction {
                            program_id: model::program_id(),
                            accounts: accounts
                                .iter()
                                .map(|(a, w)| AccountMeta {
                                    pubkey: self.addr(*a),
                                    is_signer: false,
                                    is_writable: *w,
                                })
                                .collect(),
                            data: data.clone(),
                        },
                    });
                }
                Step::Fail => out.push(Ix {
                    ix: Instruction {
                        program_id: wrapper::id(),
                        accounts: vec![],
                        data: vec![0xff],
                    },
                }),
                Step::Budget => out.push(Ix {
                    ix: ComputeBudgetInstruction::set_compute_unit_limit(1_000_000),
                }),
            }
        }
        out.into_iter().map(|i| i.ix).collect()
    }

    fn build_tx(&mut self, op: &TxOp) -> Transaction {
        let mut ixs = self.build_steps(op);
        // Something unique, so that deliberate re-submissions are not taken for duplicates.
        self.uniq += 1;
        let mut nonce = vec![0u8];
        nonce.extend_from_slice(&(self.uniq as u32).to_le_bytes()[..3]);
        ixs.push(Instruction {
            program_id: wrapper::id(),
            accounts: vec![],
            data: nonce,
        });
        let bh = &self.bank.st.blockhashes;
        let at = bh.len().saturating_sub(1 + op.age as usize);
        let hash = bh[at];
        let payer = &self.people[op.payer as usize % self.people.len()];
        Transaction::new_signed_with_payer(&ixs, Some(&payer.pubkey()), &[payer], hash)
    }

    // ---------------------------------------------------------------- running operations

    pub fn run_op(&mut self, op: &Op) {
        self.trace_hash = fnv(self.trace_hash, format!("{op:?}").as_bytes());
        match op {
            Op::Slots(n) => self.move_clock(self.slot().saturating_add(*n)),
            Op::Epochs(n, off) => {
                let e = self.bank.epoch().saturating_add(*n);
                let s = &self.bank.schedule;
                let target = s.get_first_slot_in_epoch(e) + off % s.get_slots_in_epoch(e);
                let target = target.max(self.slot() + 1);
                self.move_clock(target);
            }
            Op::Fork(n) => {
                if !self.forks.is_empty() {
                    let k = self.forks.len().saturating_sub(*n as usize + 1);
                    let (s, m) = self.forks[k].clone();
                    self.forks.truncate(k);
                    self.bank.restore(&s);
                    self.model = m;
                    self.note_fault("fork-switch");
                }
            }
            Op::Tx(t) => {
                if t.copies.is_empty() {
                    self.note_fault("message-lost");
                    // It is still built, so that its evidence account exists like otherwise.
                    let _ = self.build_tx(t);
                } else {
                    let tx = self.build_tx(t);
                    if t.copies.len() > 1 {
                        self.note_fault("message-duplicated");
                    }
                    if t.age > 0 {
                        self.note_fault("stale-blockhash");
                    }
                    for d in &t.copies {
                        if *d > 0 {
                            self.note_fault("message-delayed");
                        }
                        self.pool.push(Pending {
                            tx: tx.clone(),
                            crash: t.crash,
                            op: t.clone(),
                            due: self.op_no + *d as usize,
                        });
                    }
                }
            }
            Op::CrashSweep(t) => self.crash_sweep(t),
        }
        self.deliver_due();
        self.op_no += 1;
    }

    pub fn finish(&mut self) {
        while !self.pool.is_empty() {
            self.deliver_due();
            self.op_no += 1;
        }
    }

    fn move_clock(&mut self, slot: u64) {
        let was = self.slot();
        if slot <= was || slot > u64::MAX / 4 {
            return;
        }
        self.forks.push((self.bank.snapshot(), self.model.clone()));
        if self.forks.len() > 32 {
            self.forks.remove(0);
        }
        self.bank.advance_to(slot);
        self.stats.slots += (slot - was).min(3 * self.cfg.slots_per_epoch);
        if slot - was > 1 {
            self.note_fault("skipped-slots");
        }
    }

    fn deliver_due(&mut self) {
        let now = self.op_no;
        let mut i = 0;
        while i < self.pool.len() {
            if self.pool[i].due <= now {
                let p = self.pool.remove(i);
                self.deliver(&p);
            } else {
                i += 1;
            }
        }
    }

    fn deliver(&mut self, p: &Pending) -> bool {
        let must = self.expectation(&p.op);
        let pre_model = self.model.clone();
        let pre = (must != Must::Nothing).then(|| self.bank.snapshot());
        let res = self.bank.process(&p.tx, p.crash);
        self.stats.txs += 1;
        if res.landed {
            self.probe(&p.op, &res);
        }
        self.trace_hash = fnv(
            self.trace_hash,
            format!("{:?}{}", res.status, res.landed).as_bytes(),
        );
        if let Some(k) = res.trace.fired {
            self.note_fault(&format!("crash-{k:?}"));
        }
        self.check(&p.tx, &res, &pre_model);
        if must != Must::Nothing && res.landed && res.trace.fired.is_none() {
            match must {
                Must::Record => self.stats.must_accept += 1,
                Must::Close => self.stats.must_close += 1,
                _ => self.stats.probe("S10"),
            }
            if let Err(e) = &res.status {
                let what = format!("{e:?}");
                if must != Must::Close {
                    self.diagnose_refusal(p, &what, pre.as_ref().unwrap(), must == Must::Record);
                } else {
                    self.violate(
                        "S08",
                        format!("a close that meets every requirement failed: {what}"),
                    );
                }
            }
        }
        res.status.is_ok()
    }

    /// Counts the situations each property is about. Runs after the transaction but before the
    /// model follows it.
    fn probe(&mut self, op: &TxOp, res: &TxResult) {
        let ok = res.status.is_ok();
        self.stats.probe("S09");
        if res.trace.fired.is_some() {
            self.stats.probe("S11");
        }
        if op.steps.len() > 1 || self.model.reports.len() > 1 {
            self.stats.probe("S14");
        }
        for s in &op.steps {
            match s {
                Step::Report(r) => {
                    let b = r.ev.build(&self.keys, self.cfg.seed);
                    let node = self.node(r.ev.node);
                    let (p, q) = (model::parse(&b.shred[0]), model::parse(&b.shred[1]));
                    let signed = |x: &Option<model::Parsed>| {
                        x.as_ref().is_some_and(|x| model::signed_by(x, &node))
                    };
                    let both = signed(&p) && signed(&q);
                    let conflict = match (&p, &q) {
                        (Some(p), Some(q)) => model::conflict(p, q, r.ev.slot),
                        _ => None,
                    };
                    if !both {
                        self.stats.probe("S01");
                    } else if conflict.is_none() {
                        self.stats.probe("S02");
                    }
                    if p.is_none() || q.is_none() || !r.proof.regular() || r.twist != Twist::None {
                        self.stats.probe("S12");
                    }
                    let pda = report_address(&node, r.ev.slot);
                    if self.model.reports.contains_key(&pda) && both && conflict.is_some() {
                        self.stats.probe("S04");
                    }
                    if self.model.ever.contains_key(&(node, r.ev.slot)) && both {
                        self.stats.probe("S13");
                    }
                    if ok {
                        self.stats.probe("S05");
                    }
                    if self.expectation(op) == Must::Record {
                        self.stats.probe("S03");
                    }
                    if both && conflict.is_some() {
                        let spe = self.cfg.slots_per_epoch;
                        match self.slot().checked_sub(r.ev.slot) {
                            Some(e) if e > 1 && e < spe - 1 => {}
                            _ => self.stats.probe("S06"),
                        }
                        if r.form != Form::Canonical {
                            self.stats.probe("S10");
                        }
                    }
                }
                Step::Close(c) => {
                    let k = self.addr(c.report);
                    let e = self.bank.epoch();
                    match self.model.reports.get(&k) {
                        Some(r) if e < r.header.epoch + 3 => self.stats.probe("S07"),
                        Some(_) => self.stats.probe("S08"),
                        None => {}
                    }
                }
                Step::Raw { .. } => self.stats.probe("S12"),
                Step::Transfer { to: Addr::Report { .. }, .. } => self.stats.probe("S10"),
                _ => {}
            }
        }
    }

    fn diagnose_refusal(&mut self, p: &Pending, err: &str, pre: &BankSnapshot, genuine: bool) {
        let Some(Step::Report(r)) = p.op.steps.first() else {
            return;
        };
        let slot = r.ev.slot;
        let elapsed = self.slot() - slot;
        let edge = elapsed == 0 || elapsed >= self.cfg.slots_per_epoch - 1;
        let ctx = format!(
            "{}evidence ({:?}) {} slots after slot {} was refused: {err}",
            if genuine { "genuine " } else { "" },
            self.classify(&r.ev),
            elapsed,
            slot
        );
        if genuine {
            if edge {
                self.violate("S06", ctx.clone());
            }
            self.violate("S03", ctx.clone());
        }
        // Would more money, or an address nobody had sent money to, have helped?
        let pda = report_address(&self.node(r.ev.node), slot);
        let after = self.bank.snapshot();
        let had = {
            self.bank.restore(pre);
            self.bank.lamports(&pda)
        };
        let variants: &[Option<u64>] = if had > 0 {
            &[Some(0), Some(1 << 40)]
        } else {
            &[Some(1 << 40)]
        };
        for v in variants {
            self.bank.restore(pre);
            match v {
                Some(0) => {
                    self.bank.st.accounts.remove(&pda);
                }
                _ => self.bank.fund(pda, 1 << 40),
            }
            let mut op = p.op.clone();
            op.age = 0;
            let tx = self.build_tx(&op);
            if self.bank.process(&tx, None).status.is_ok() {
                self.violate(
                    "S10",
                    format!("{ctx}; with balance {v:?} at the report address it is accepted"),
                );
            }
        }
        self.bank.restore(&after);
    }

    fn classify(&self, ev: &Evidence) -> Option<model::Conflict> {
        let b = ev.build(&self.keys, self.cfg.seed);
        let (p, q) = (model::parse(&b.shred[0])?, model::parse(&b.shred[1])?);
        model::conflict(&p, &q, ev.slot)
    }

    /// Is this evidence something the program is obliged to accept (timing aside)?
    pub fn obliging(&self, ev: &Evidence) -> bool {
        let b = ev.build(&self.keys, self.cfg.seed);
        let (Some(p), Some(q)) = (model::parse(&b.shred[0]), model::parse(&b.shred[1])) else {
            return false;
        };
        let node = self.node(ev.node);
        model::well_formed(&p)
            && model::well_formed(&q)
            && model::conflict(&p, &q, ev.slot).is_some()
            && model::signed_by(&p, &node)
            && model::signed_by(&q, &node)
    }

    /// Both pieces fit into packets, so that the documented prefunding must be enough.
    fn within_packets(&self, ev: &Evidence) -> bool {
        let b = ev.build(&self.keys, self.cfg.seed);
        b.shred.iter().all(|s| s.len() <= 1232)
    }

    /// What the documentation obliges the program to do with this transaction right now.
    fn expectation(&self, op: &TxOp) -> Must {
        if op.crash.is_some() || op.steps.len() != 1 {
            return Must::Nothing;
        }
        let payer = self.addr(Addr::Person(op.payer));
        let rich = self.bank.lamports(&payer)
            > self.min_balance(model::MAX_REPORT_LEN) * 2 + self.min_balance(0) + 1_000_000;
        if !rich {
            return Must::Nothing;
        }
        match &op.steps[0] {
            Step::Report(r) => {
                let pda = report_address(&self.node(r.ev.node), r.ev.slot);
                let spe = self.cfg.slots_per_epoch;
                let timely = self
                    .slot()
                    .checked_sub(r.ev.slot)
                    .is_some_and(|e| e <= spe);
                if r.form == Form::Canonical
                    && r.twist == Twist::None
                    && r.proof.regular()
                    && timely
                    && !self.model.reports.contains_key(&pda)
                    && self.addr(r.dest) != pda
                {
                    if self.obliging(&r.ev) {
                        Must::Record
                    } else if self.within_packets(&r.ev) {
                        Must::Funded
                    } else {
                        Must::Nothing
                    }
                } else {
                    Must::Nothing
                }
            }
            Step::Close(c) => {
                let key = self.addr(c.report);
                let Some(r) = self.model.reports.get(&key) else {
                    return Must::Nothing;
                };
                let dest = self.addr(c.dest);
                let plain_dest = self
                    .bank
                    .get(&dest)
                    .is_none_or(|a| !a.executable())
                    && !matches!(
                        c.dest,
                        Addr::Clock
                            | Addr::Slashing
                            | Addr::System
                            | Addr::InstructionsSysvar
                            | Addr::Record
                            | Addr::Default
                    );
                if r.header.destination == dest
                    && plain_dest
                    && !c.dest_readonly
                    && !c.extra
                    && !c.nested
                    && c.trailing == 0
                    && self.bank.epoch() >= r.header.epoch.saturating_add(3)
                {
                    Must::Close
                } else {
                    Must::Nothing
                }
            }
            _ => Must::Nothing,
        }
    }

    fn crash_sweep(&mut self, t: &TxOp) {
        let mut op = t.clone();
        op.crash = None;
        op.copies = vec![0];
        op.age = 0;
        let pre = (self.bank.snapshot(), self.model.clone());
        let back = |w: &mut World| {
            w.bank.restore(&pre.0);
            w.model = pre.1.clone();
        };
        // The undisturbed attempt, to learn the crash points and the outcome.
        let tx = self.build_tx(&op);
        let reference = self.bank.process(&tx, None);
        self.stats.txs += 1;
        self.check(&tx, &reference, &pre.1);
        let points = reference.trace.points.clone();
        let want_ok = reference.status.is_ok();
        for (at, name) in points.iter().enumerate() {
            let mut kinds = vec![CrashKind::OutOfCompute];
            if name.starts_with("sysvar") {
                kinds.push(CrashKind::SysvarUnavailable);
            }
            if *name == "cpi" {
                kinds.push(CrashKind::CpiFailsBefore);
                kinds.push(CrashKind::AbortAfterCpi);
            }
            for kind in kinds {
                back(self);
                self.stats.crash_points += 1;
                let tx = self.build_tx(&op);
                let before = self.bank.st.accounts.clone();
                let res = self.bank.process(
                    &tx,
                    Some(CrashPlan {
                        at: at as u32,
                        kind,
                    }),
                );
                self.stats.txs += 1;
                if res.trace.fired.is_some() {
                    self.note_fault(&format!("crash-{kind:?}"));
                    self.stats.probe("S11");
                }
                let v0 = self.violations.len();
                let model_before = self.model.clone();
                self.check(&tx, &res, &model_before);
                let fired = res.trace.fired.is_some();
                if fired && res.status.is_ok() {
                    // Took effect despite the fault: then it must be exactly the full effect.
                    if self.violations.len() > v0 {
                        let w = self.violations[v0].what.clone();
                        self.violate(
                            "S11",
                            format!("{kind:?} at {name} #{at} left a wrong effect behind: {w}"),
                        );
                    } else if !want_ok {
                        self.violate(
                            "S11",
                            format!("{kind:?} at {name} #{at} turned a failing attempt into a success"),
                        );
                    } else {
                        self.compare_effect(&reference, &res, name, at, kind);
                    }
                }
                if res.status.is_err() {
                    let payer = tx.message.account_keys[0];
                    let changed = self.bank.st.accounts.iter().any(|(k, a)| {
                        *k != payer && before.get(k).is_none_or(|b| !same(a, b))
                    }) || before.keys().any(|k| !self.bank.st.accounts.contains_key(k));
                    if changed {
                        self.violate(
                            "S11",
                            format!("{kind:?} at {name} #{at}: accounts changed by a failed attempt"),
                        );
                    }
                    // Retry as if nothing had happened (not even the fee, which may be what a
                    // poor payer cannot spend twice).
                    if let Some(a) = before.get(&payer) {
                        self.bank.st.accounts.insert(payer, a.clone());
                    }
                    let retry = self.build_tx(&op);
                    let r2 = self.bank.process(&retry, None);
                    self.stats.txs += 1;
                    let m = self.model.clone();
                    self.check(&retry, &r2, &m);
                    if r2.landed && r2.status.is_ok() != want_ok {
                        self.violate(
                            "S11",
                            format!(
                                "after {kind:?} at {name} #{at} a retry ended with {:?}, an undisturbed attempt with {:?}",
                                r2.status, reference.status
                            ),
                        );
                    }
                }
            }
        }
        // Cut short before the program runs at all, and by a later failing instruction.
        back(self);
        let mut late = op.clone();
        late.steps.push(Step::Fail);
        let tx = self.build_tx(&late);
        let before = self.bank.st.accounts.clone();
        let res = self.bank.process(&tx, None);
        self.stats.txs += 1;
        self.stats.crash_points += 1;
        self.note_fault("later-instruction-fails");
        let payer = tx.message.account_keys[0];
        if res.status.is_ok()
            || self
                .bank
                .st
                .accounts
                .iter()
                .any(|(k, a)| *k != payer && before.get(k).is_none_or(|b| !same(a, b)))
        {
            self.violate("S11", "a failed transaction left changes behind".into());
        }
        back(self);
        // And in the end it goes through.
        let p = Pending {
            tx: self.build_tx(&op),
            crash: None,
            op,
            due: 0,
        };
        let ok = self.deliver(&p);
        if ok != want_ok {
            self.violate("S11", "the attempt no longer has the same outcome".into());
        }
    }

    fn compare_effect(&mut self, a: &TxResult, b: &TxResult, name: &str, at: usize, kind: CrashKind) {
        let f = |r: &TxResult| -> BTreeMap<Pubkey, (u64, Vec<u8>, Pubkey)> {
            r.diffs
                .iter()
                .map(|d| {
                    let x = d.post.as_ref();
                    (
                        d.key,
                        (
                            x.map_or(0, |x| x.lamports()),
                            x.map_or(vec![], |x| x.data().to_vec()),
                            x.map_or(Pubkey::default(), |x| *x.owner()),
                        ),
                    )
                })
                .collect()
        };
        if f(a) != f(b) {
            self.violate(
                "S11",
                format!("{kind:?} at {name} #{at} was ignored and changed the effect"),
            );
        }
    }

    // ---------------------------------------------------------------- checking

    fn check(&mut self, tx: &Transaction, res: &TxResult, pre_model: &Model) {
        for inv in &res.trace.invocations {
            if let Outcome::Panicked(m) = &inv.outcome {
                let m = m.clone();
                self.violate(
                    "S12",
                    format!(
                        "the program aborted on {} bytes of instruction data and {} accounts: {m}",
                        inv.data.len(),
                        inv.accounts.len()
                    ),
                );
            }
        }
        if !res.landed {
            return;
        }
        self.stats.landed += 1;
        let payer = tx.message.account_keys[0];
        let total = |f: fn(&crate::chain::Diff) -> u64| res.diffs.iter().map(f).sum::<u64>();
        let before = total(|d| d.pre.as_ref().map_or(0, |a| a.lamports()));
        let after = total(|d| d.post.as_ref().map_or(0, |a| a.lamports()));
        if before != after + res.fee {
            self.violate(
                "S09",
                format!("lamports before {before}, after {after}, fee {}", res.fee),
            );
        }
        if let Err(e) = &res.status {
            *self
                .stats
                .refused
                .entry(short(&format!("{e:?}")))
                .or_default() += 1;
            for d in res.diffs.clone() {
                if d.key != payer {
                    self.violate("S11", format!("failed transaction changed {}", d.key));
                }
            }
            return;
        }
        self.stats.ok += 1;

        // Reference interpretation of the transaction.
        let mut sh = Shadow {
            touched: BTreeMap::new(),
        };
        sh.add(&self.pre_state(res), payer, -(res.fee as i128));
        let mut closed: Vec<Pubkey> = vec![];
        let mut recorded: Vec<Pubkey> = vec![];
        let mut slashing = res
            .trace
            .invocations
            .iter()
            .filter(|i| i.outcome == Outcome::Ok);
        let pre = self.pre_state(res);
        let msg = &tx.message;
        for ix in &msg.instructions {
            let program = msg.account_keys[ix.program_id_index as usize];
            if program == system_program::id() && ix.data.len() == 12 && ix.data[0] == 2 {
                let l = u64::from_le_bytes(ix.data[4..12].try_into().unwrap());
                let from = msg.account_keys[ix.accounts[0] as usize];
                let to = msg.account_keys[ix.accounts[1] as usize];
                sh.add(&pre, from, -(l as i128));
                sh.add(&pre, to, l as i128);
            }
            let is_slashing = program == model::program_id()
                || (program == wrapper::id() && ix.data.first() == Some(&0xc1));
            if !is_slashing {
                continue;
            }
            let Some(inv) = slashing.next().cloned() else {
                continue;
            };
            match inv.data.first() {
                Some(1) => {
                    self.interpret_record(&inv.accounts, &inv.data, &pre, &mut sh, &mut recorded)
                }
                Some(0) if inv.accounts.len() >= 2 => {
                    self.interpret_close(&inv.accounts, &pre, &mut sh, &mut closed, pre_model)
                }
                _ => self.violate(
                    "S12",
                    format!(
                        "accepted an undocumented instruction: {:?} with {} accounts",
                        &inv.data[..inv.data.len().min(8)],
                        inv.accounts.len()
                    ),
                ),
            }
        }
        self.compare(res, &pre, sh, &recorded, &closed, pre_model);
        self.resync(res, &recorded, &closed);
    }

    fn pre_state(&self, res: &TxResult) -> Pre {
        Pre {
            changed: res
                .diffs
                .iter()
                .map(|d| (d.key, d.pre.clone()))
                .collect(),
            current: self.bank.st.accounts.clone(),
        }
    }

    fn interpret_record(
        &mut self,
        accounts: &[(Pubkey, bool)],
        data: &[u8],
        pre: &Pre,
        sh: &mut Shadow,
        recorded: &mut Vec<Pubkey>,
    ) {
        if data.len() != IX_LEN || accounts.len() < 4 {
            self.violate(
                "S12",
                format!(
                    "accepted a report instruction of {} bytes with {} accounts",
                    data.len(),
                    accounts.len()
                ),
            );
            return;
        }
        let u = |o: usize| u64::from_le_bytes(data[o..o + 8].try_into().unwrap());
        let k = |o: u16| {
            Pubkey::new_from_array(data[o as usize..o as usize + 32].try_into().unwrap())
        };
        let (offset, slot) = (u(1), u(9));
        let (node, reporter, dest) = (k(OFF_NODE), k(OFF_REPORTER), k(OFF_DEST));
        let pda = accounts[1].0;
        let now = self.slot();
        let ctx = format!("report of slot {slot} recorded at slot {now}");
        if accounts[2].0 != sysvar::instructions::id() {
            self.violate(
                "S01",
                format!("{ctx} with {} in place of the instructions sysvar", accounts[2].0),
            );
        }
        if pda != report_address(&node, slot) {
            self.violate("S14", format!("{ctx} at a foreign address {pda}"));
        }
        match now.checked_sub(slot) {
            Some(e) if e <= self.cfg.slots_per_epoch => {
                if e == 0 || e == self.cfg.slots_per_epoch {
                    self.stats.window_edges += 1;
                }
            }
            e => self.violate("S06", format!("{ctx}: {e:?} slots after the violation")),
        }
        if sh.touched.get(&pda).map_or_else(
            || pre.get(&pda).is_some_and(|a| *a.owner() == model::program_id() && !a.data().is_empty()),
            |a| a.owner == model::program_id() && !a.data.is_empty(),
        ) {
            self.violate("S04", format!("{ctx} over an existing report"));
        }
        let n = self.model.ever.entry((node, slot)).or_default();
        *n += 1;
        // While epochs still grow, a report can be closed inside the window.
        if *n > 1 && !self.cfg.warmup {
            let n = *n;
            self.violate("S13", format!("{ctx}: recorded {n} times"));
        }
        if dest == pda {
            self.violate("S08", format!("{ctx} with itself as destination"));
        }
        let proof = pre.get(&accounts[0].0);
        let body = proof
            .as_ref()
            .and_then(|a| a.data().get(usize::try_from(offset).ok()?..))
            .and_then(read_proof);
        let Some((s1, s2)) = body else {
            self.violate("S12", format!("{ctx} from an unreadable proof account"));
            return;
        };
        let (p, q) = (model::parse(&s1), model::parse(&s2));
        match (&p, &q) {
            (Some(p), Some(q)) => {
                for (which, s) in [(1, p), (2, q)] {
                    if !model::signed_by(s, &node) {
                        self.violate(
                            "S01",
                            format!("{ctx}: shred {which} is not signed by the accused {node}"),
                        );
                    }
                }
                match model::conflict(p, q, slot) {
                    None => self.violate(
                        "S02",
                        format!(
                            "{ctx}: no conflict between {} and {}",
                            describe(p, s1.len()),
                            describe(q, s2.len())
                        ),
                    ),
                    Some(c) => {
                        *self.stats.kinds.entry(format!("{c:?}")).or_default() += 1;
                    }
                }
            }
            _ => {
                self.violate("S02", format!("{ctx}: evidence that is no merkle shred"));
                self.violate("S01", format!("{ctx}: evidence that is no merkle shred"));
            }
        }
        let h = Header {
            version: 1,
            reporter,
            destination: dest,
            epoch: self.bank.epoch(),
            node,
            slot,
            kind: 1,
        };
        let bytes = report_bytes(&h, &s1, &s2);
        let acc = sh.entry(pre, pda);
        let need = self.bank.rent.minimum_balance(bytes.len());
        let have = acc.lamports;
        acc.owner = model::program_id();
        acc.data = bytes;
        if (have.max(0) as u64) < need {
            self.violate(
                "S10",
                format!("{ctx} with {have} lamports, needs {need}"),
            );
        }
        self.stats.recorded += 1;
        recorded.push(pda);
    }

    fn interpret_close(
        &mut self,
        accounts: &[(Pubkey, bool)],
        pre: &Pre,
        sh: &mut Shadow,
        closed: &mut Vec<Pubkey>,
        pre_model: &Model,
    ) {
        let (report, dest) = (accounts[0].0, accounts[1].0);
        let Some(r) = pre_model.reports.get(&report).cloned() else {
            if sh
                .touched
                .get(&report)
                .is_some_and(|a| a.owner == model::program_id())
            {
                self.violate("S07", format!("{report} closed as soon as it was recorded"));
            } else {
                self.violate(
                    "S14",
                    format!("a close of {report} succeeded, which is no violation report"),
                );
            }
            return;
        };
        if closed.contains(&report) {
            self.violate("S08", format!("{report} closed twice"));
            return;
        }
        let now = self.bank.epoch();
        if now < r.header.epoch.saturating_add(3) {
            self.violate(
                "S07",
                format!("closed in epoch {now}, recorded in epoch {}", r.header.epoch),
            );
        }
        if dest != r.header.destination {
            self.violate(
                "S08",
                format!("closed in favour of {dest}, recorded destination {}", r.header.destination),
            );
        }
        let acc = sh.entry(pre, report);
        let l = acc.lamports;
        acc.lamports = 0;
        acc.owner = system_program::id();
        acc.data = vec![];
        sh.add(pre, r.header.destination, l);
        self.stats.closed += 1;
        closed.push(report);
    }

    fn compare(
        &mut self,
        res: &TxResult,
        pre: &Pre,
        sh: Shadow,
        recorded: &[Pubkey],
        closed: &[Pubkey],
        pre_model: &Model,
    ) {
        let mut keys: BTreeSet<Pubkey> = sh.touched.keys().copied().collect();
        keys.extend(res.diffs.iter().map(|d| d.key));
        let payer_dest: BTreeSet<Pubkey> = closed
            .iter()
            .filter_map(|k| pre_model.reports.get(k))
            .map(|r| r.header.destination)
            .collect();
        for k in keys {
            let actual = self.bank.get(&k).map(Acc::of).unwrap_or_default();
            let expect = match sh.touched.get(&k) {
                Some(a) if a.lamports > 0 => a.clone(),
                Some(_) => Acc::default(),
                None => pre.get(&k).map(|a| Acc::of(&a)).unwrap_or_default(),
            };
            if actual == expect {
                continue;
            }
            let d = format!(
                "{k}: expected {} lamports, owner {}, {} bytes; found {} lamports, owner {}, {} bytes{}",
                expect.lamports,
                expect.owner,
                expect.data.len(),
                actual.lamports,
                actual.owner,
                actual.data.len(),
                first_difference(&expect.data, &actual.data),
            );
            if recorded.contains(&k) {
                if actual.owner != expect.owner || actual.data.len() != expect.data.len() {
                    self.violate("S10", format!("new report {d}"));
                }
                if actual.owner != expect.owner || actual.data.len() < expect.data.len() {
                    self.violate("S11", format!("a successful submission left an incomplete report: {d}"));
                }
                if actual.data != expect.data {
                    self.violate("S05", format!("new report {d}"));
                }
                if actual.lamports != expect.lamports {
                    self.violate("S09", format!("new report {d}"));
                    if actual.lamports < self.bank.rent.minimum_balance(actual.data.len()) as i128 {
                        self.violate("S10", format!("new report {d}"));
                    }
                }
            } else if closed.contains(&k) {
                self.violate("S08", format!("closed report {d}"));
            } else if let Some(r) = pre_model.reports.get(&k) {
                if actual.data != r.bytes || actual.owner != model::program_id() {
                    self.violate("S04", format!("existing report {d}"));
                    self.violate("S14", format!("existing report {d}"));
                }
                if actual.lamports < r.account.lamports() as i128 || actual.data.is_empty() {
                    if self.bank.epoch() < r.header.epoch.saturating_add(3) {
                        self.violate("S07", format!("existing report {d}"));
                    }
                }
                self.violate("S09", format!("existing report {d}"));
            } else {
                if payer_dest.contains(&k) || !closed.is_empty() {
                    self.violate("S08", format!("on a close: {d}"));
                }
                self.violate("S09", d);
            }
        }
        // Every genuine report not closed here is where and what it was.
        for (k, r) in pre_model.reports.iter() {
            if closed.contains(k) {
                continue;
            }
            let ok = self.bank.get(k).is_some_and(|a| {
                a.data() == r.bytes
                    && *a.owner() == model::program_id()
                    && a.lamports() >= r.account.lamports()
            });
            if !ok && !res.diffs.iter().any(|d| d.key == *k) {
                self.violate("S04", format!("report {k} vanished"));
            }
        }
    }

    /// Follows the chain as it is, so that one violation does not produce a cascade.
    fn resync(&mut self, res: &TxResult, recorded: &[Pubkey], closed: &[Pubkey]) {
        let keys: BTreeSet<Pubkey> = res
            .diffs
            .iter()
            .map(|d| d.key)
            .chain(recorded.iter().copied())
            .chain(closed.iter().copied())
            .collect();
        for k in keys {
            let a = self.bank.get(&k).cloned();
            match a {
                Some(a)
                    if *a.owner() == model::program_id()
                        && (recorded.contains(&k) || self.model.reports.contains_key(&k)) =>
                {
                    if let Some((header, _, _)) = model::decode_report(a.data()) {
                        self.model.reports.insert(
                            k,
                            RecordedReport {
                                bytes: a.data().to_vec(),
                                account: a,
                                header,
                            },
                        );
                    }
                }
                _ => {
                    self.model.reports.remove(&k);
                }
            }
        }
    }

    /// Checks over the final state.
    pub fn final_checks(&mut self) {
        let all: Vec<(Pubkey, AccountSharedData)> = self
            .bank
            .st
            .accounts
            .iter()
            .filter(|(_, a)| *a.owner() == model::program_id() && a.lamports() > 0)
            .map(|(k, a)| (*k, a.clone()))
            .collect();
        let mut seen: BTreeMap<(Pubkey, u64), Pubkey> = BTreeMap::new();
        let rent = self.bank.rent.clone();
        for (k, a) in all {
            if a.data().first().is_none_or(|v| *v == 0) {
                continue;
            }
            let Some((h, s1, s2)) = model::decode_report(a.data()) else {
                self.violate("S05", format!("{k} is not a well-formed report"));
                continue;
            };
            if let Some(other) = seen.insert((h.node, h.slot), k) {
                self.violate("S04", format!("{k} and {other} report the same violation"));
            }
            if k != report_address(&h.node, h.slot) {
                self.violate("S14", format!("{k} is not the address of its violation"));
            }
            if a.lamports() < rent.minimum_balance(a.data().len()) {
                self.violate("S10", format!("{k} is not rent-exempt"));
            }
            // Anyone can re-check the guilt from the account alone.
            let ok = match (model::parse(&s1), model::parse(&s2)) {
                (Some(p), Some(q)) => {
                    model::conflict(&p, &q, h.slot).is_some()
                        && model::signed_by(&p, &h.node)
                        && model::signed_by(&q, &h.node)
                }
                _ => false,
            };
            if !ok {
                self.violate("S05", format!("{k} does not prove the guilt it asserts"));
            }
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Must {
    Nothing,
    Record,
    /// Whatever happens, it must not be for want of money.
    Funded,
    Close,
}

struct Pre {
    changed: BTreeMap<Pubkey, Option<AccountSharedData>>,
    current: crate::chain::Accounts,
}
impl Pre {
    fn get(&self, k: &Pubkey) -> Option<AccountSharedData> {
        match self.changed.get(k) {
            Some(a) => a.clone(),
            None => self.current.get(k).filter(|a| a.lamports() > 0).cloned(),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
struct Acc {
    lamports: i128,
    owner: Pubkey,
    data: Vec<u8>,
}
impl Default for Acc {
    fn default() -> Self {
        Self {
            lamports: 0,
            owner: system_program::id(),
            data: vec![],
        }
    }
}
impl Acc {
    fn of(a: &AccountSharedData) -> Self {
        Self {
            lamports: a.lamports() as i128,
            owner: *a.owner(),
            data: a.data().to_vec(),
        }
    }
}
struct Shadow {
    touched: BTreeMap<Pubkey, Acc>,
}
impl Shadow {
    fn entry(&mut self, pre: &Pre, k: Pubkey) -> &mut Acc {
        self.touched
            .entry(k)
            .or_insert_with(|| pre.get(&k).map(|a| Acc::of(&a)).unwrap_or_default())
    }
    fn add(&mut self, pre: &Pre, k: Pubkey, d: i128) {
        self.entry(pre, k).lamports += d;
    }
}

fn same(a: &AccountSharedData, b: &AccountSharedData) -> bool {
    a.lamports() == b.lamports() && a.owner() == b.owner() && a.data() == b.data()
}
fn short(s: &str) -> String {
    s.chars().take(60).collect()
}
fn first_difference(a: &[u8], b: &[u8]) -> String {
    match a.iter().zip(b).position(|(x, y)| x != y) {
        Some(i) => format!(", first difference at byte {i}"),
        None => String::new(),
    }
}
fn describe(p: &model::Parsed, len: usize) -> String {
    format!(
        "{} shred index {} of set {} (version {}, {}{} bytes{})",
        if p.v.code { "code" } else { "data" },
        p.index,
        p.fec,
        p.version,
        if p.last { "last in slot, " } else { "" },
        len,
        if p.v.code {
            format!(", {}+{} at {}", p.num_data, p.num_coding, p.position)
        } else {
            String::new()
        }
    )
}
