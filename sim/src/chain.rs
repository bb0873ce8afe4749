//! The simulated cluster: one fork-aware bank around the real Solana VM.
//!
//! Real: the transaction processor, system program, compute-budget program, precompiles, account
//! loading, rent-state rules, fee deduction, rollback of failed transactions, and the slashing and
//! record programs (built natively). Simulated: block production, clocks, fork choice, storage.
use {
    crate::svm::{self, CrashPlan, TxTrace},
    solana_program_runtime::{
        execution_budget::{
            SVMTransactionExecutionAndFeeBudgetLimits, SVMTransactionExecutionBudget,
            MAX_LOADED_ACCOUNTS_DATA_SIZE_BYTES,
        },
        loaded_programs::{BlockRelation, ForkGraph, ProgramCacheEntry},
    },
    solana_sdk::{
        account::{Account, AccountSharedData, ReadableAccount},
        clock::Clock,
        ed25519_program,
        epoch_schedule::EpochSchedule,
        hash::{hashv, Hash},
        native_loader,
        precompiles::PrecompileError,
        pubkey::Pubkey,
        rent::Rent,
        reserved_account_keys::ReservedAccountKeys,
        signature::Signature,
        sysvar::{self, SysvarId},
        transaction::{
            SanitizedTransaction, SimpleAddressLoader, Transaction, TransactionError,
            VersionedTransaction,
        },
    },
    solana_svm::{
        account_loader::CheckedTransactionDetails,
        transaction_processing_result::ProcessedTransaction,
        transaction_processor::{
            ExecutionRecordingConfig, TransactionBatchProcessor, TransactionProcessingConfig,
            TransactionProcessingEnvironment,
        },
    },
    solana_svm_callback::{InvokeContextCallback, TransactionProcessingCallback},
    solana_svm_feature_set::SVMFeatureSet,
    std::{
        collections::{BTreeMap, HashSet, VecDeque},
        sync::{Arc, RwLock},
    },
};

pub const MAX_PROCESSING_AGE: usize = 150;
pub const PACKET_DATA_SIZE: usize = 1232;

pub type Accounts = BTreeMap<Pubkey, AccountSharedData>;

pub struct Forks {}
impl ForkGraph for Forks {
    fn relationship(&self, a: u64, b: u64) -> BlockRelation {
        match a.cmp(&b) {
            std::cmp::Ordering::Less => BlockRelation::Ancestor,
            std::cmp::Ordering::Equal => BlockRelation::Equal,
            std::cmp::Ordering::Greater => BlockRelation::Descendant,
        }
    }
}

struct Callback<'a> {
    accounts: &'a RwLock<Accounts>,
    features: &'a agave_feature_set::FeatureSet,
}
impl InvokeContextCallback for Callback<'_> {
    fn is_precompile(&self, id: &Pubkey) -> bool {
        agave_precompiles::is_precompile(id, |f| self.features.is_active(f))
    }
    fn process_precompile(
        &self,
        id: &Pubkey,
        data: &[u8],
        datas: Vec<&[u8]>,
    ) -> Result<(), PrecompileError> {
        match agave_precompiles::get_precompile(id, |f| self.features.is_active(f)) {
            Some(p) => p.verify(data, &datas, self.features),
            None => Err(PrecompileError::InvalidPublicKey),
        }
    }
}
impl TransactionProcessingCallback for Callback<'_> {
    fn account_matches_owners(&self, account: &Pubkey, owners: &[Pubkey]) -> Option<usize> {
        let accounts = self.accounts.read().unwrap();
        let a = accounts.get(account)?;
        if a.lamports() == 0 {
            return None;
        }
        owners.iter().position(|o| a.owner() == o)
    }
    fn get_account_shared_data(&self, pubkey: &Pubkey) -> Option<AccountSharedData> {
        self.accounts.read().unwrap().get(pubkey).cloned()
    }
    fn add_builtin_account(&self, name: &str, id: &Pubkey) {
        let a = AccountSharedData::from(Account {
            lamports: 1,
            data: name.as_bytes().to_vec(),
            owner: native_loader::id(),
            executable: true,
            rent_epoch: u64::MAX,
        });
        self.accounts.write().unwrap().insert(*id, a);
    }
}

#[derive(Clone)]
pub struct Genesis {
    pub slots_per_epoch: u64,
    pub start_slot: u64,
    pub lamports_per_byte_year: u64,
    pub fork_id: u64,
    pub warmup: bool,
    /// The program's debug build, in which arithmetic overflows and failed assertions panic.
    pub checked: bool,
    /// How many slots ahead of its epoch a leader schedule is made.
    pub leader_offset: u64,
}

/// The part of the bank that a fork switch rolls back.
#[derive(Clone)]
pub struct BankState {
    pub accounts: Accounts,
    pub slot: u64,
    pub blockhashes: VecDeque<Hash>,
    pub status: BTreeMap<Signature, (u64, Result<(), TransactionError>)>,
    pub hash_counter: u64,
}

#[derive(Clone, Debug)]
pub struct Diff {
    pub key: Pubkey,
    pub pre: Option<AccountSharedData>,
    pub post: Option<AccountSharedData>,
}

pub struct TxResult {
    /// None: never entered a block (bad signature, expired, already processed, cannot pay).
    pub status: Result<(), TransactionError>,
    pub landed: bool,
    pub fee: u64,
    pub logs: Vec<String>,
    pub diffs: Vec<Diff>,
    pub trace: TxTrace,
    pub units: u64,
}

pub struct Bank {
    pub st: BankState,
    pub schedule: EpochSchedule,
    pub rent: Rent,
    pub lamports_per_signature: u64,
    processor: TransactionBatchProcessor<Forks>,
    _fork_graph: Arc<RwLock<Forks>>,
    features: agave_feature_set::FeatureSet,
    svm_features: SVMFeatureSet,
    reserved: HashSet<Pubkey>,
    fork_nonce: u64,
    pub executed: u64,
}

#[derive(Clone)]
pub struct BankSnapshot(BankState);
impl BankState {
    pub fn into_snapshot(self) -> BankSnapshot {
        BankSnapshot(self)
    }
}

pub mod wrapper;

impl Bank {
    pub fn new(g: &Genesis) -> Self {
        let fork_graph = Arc::new(RwLock::new(Forks {}));
        let schedule = EpochSchedule::custom(g.slots_per_epoch, g.leader_offset, g.warmup);
        let processor = TransactionBatchProcessor::new(
            g.start_slot,
            schedule.get_epoch(g.start_slot),
            Arc::downgrade(&fork_graph),
            None,
            None,
        );
        let rent = Rent {
            lamports_per_byte_year: g.lamports_per_byte_year,
            ..Rent::default()
        };
        let mut svm_features = SVMFeatureSet::all_enabled();
        svm_features.bpf_account_data_direct_mapping = false;
        let mut bank = Self {
            st: BankState {
                accounts: Accounts::new(),
                slot: g.start_slot,
                blockhashes: VecDeque::new(),
                status: BTreeMap::new(),
                hash_counter: 0,
            },
            schedule,
            rent,
            lamports_per_signature: 5000,
            processor,
            _fork_graph: fork_graph,
            features: agave_feature_set::FeatureSet::all_enabled(),
            svm_features,
            reserved: ReservedAccountKeys::new_all_activated().active,
            fork_nonce: g.fork_id,
            executed: 0,
        };
        bank.install_programs(g.checked);
        bank.push_blockhash();
        bank.refresh_sysvars();
        bank
    }

    fn install_programs(&mut self, checked: bool) {
        let accounts = RwLock::new(std::mem::take(&mut self.st.accounts));
        let cb = Callback {
            accounts: &accounts,
            features: &self.features,
        };
        let add = |id: Pubkey, name: &str, f| {
            self.processor
                .add_builtin(&cb, id, name, ProgramCacheEntry::new_builtin(0, name.len(), f));
        };
        add(
            solana_sdk::system_program::id(),
            "system_program",
            solana_system_program::system_processor::Entrypoint::vm,
        );
        add(
            solana_sdk::compute_budget::id(),
            "compute_budget_program",
            solana_compute_budget_program::Entrypoint::vm,
        );
        if checked {
            add(
                solana_slashing_program::id(),
                "slashing",
                crate::native_processor!(
                    |p, a, d| solana_slashing_checked::processor::process_instruction(p, a, d),
                    true
                ),
            );
        } else {
            add(
                solana_slashing_program::id(),
                "slashing",
                crate::native_processor!(
                    |p, a, d| solana_slashing_program::processor::process_instruction(p, a, d),
                    true
                ),
            );
        }
        add(
            spl_record::id(),
            "record",
            crate::native_processor!(
                |p, a, d| spl_record::processor::process_instruction(p, a, d),
                false
            ),
        );
        add(
            wrapper::id(),
            "wrapper",
            crate::native_processor!(|p, a, d| wrapper::process_instruction(p, a, d), false),
        );
        for id in [
            ed25519_program::id(),
            solana_sdk::secp256k1_program::id(),
        ] {
            cb.add_builtin_account("", &id);
        }
        drop(cb);
        self.st.accounts = accounts.into_inner().unwrap();
    }

    fn put_sysvar<T: serde::Serialize + SysvarId>(&mut self, v: &T) {
        let data = bincode::serialize(v).unwrap();
        let a = Account {
            lamports: 1,
            data,
            owner: sysvar::id(),
            executable: false,
            rent_epoch: u64::MAX,
        };
        self.st.accounts.insert(T::id(), a.into());
    }

    pub fn epoch(&self) -> u64 {
        self.schedule.get_epoch(self.st.slot)
    }

    pub fn clock(&self) -> Clock {
        Clock {
            slot: self.st.slot,
            epoch_start_timestamp: 1_700_000_000 + (self.schedule.get_first_slot_in_epoch(self.epoch()) * 2 / 5) as i64,
            epoch: self.epoch(),
            leader_schedule_epoch: self.schedule.get_leader_schedule_epoch(self.st.slot),
            // The validators' idea of time runs unevenly, and backwards at times.
            unix_timestamp: 1_700_000_000 + (self.st.slot * 2 / 5) as i64
                + if self.fork_nonce % 4 == 0 { (self.st.slot / 16 * 7919 % 200_000) as i64 - 100_000 } else { 0 },
        }
    }

    fn push_blockhash(&mut self) {
        self.st.hash_counter += 1;
        let h = hashv(&[
            b"slashsim",
            &self.fork_nonce.to_le_bytes(),
            &self.st.slot.to_le_bytes(),
            &self.st.hash_counter.to_le_bytes(),
        ]);
        self.st.blockhashes.push_back(h);
        while self.st.blockhashes.len() > MAX_PROCESSING_AGE + 1 {
            self.st.blockhashes.pop_front();
        }
    }

    fn refresh_sysvars(&mut self) {
        let clock = self.clock();
        self.put_sysvar(&clock);
        let rent = self.rent.clone();
        self.put_sysvar(&rent);
        let schedule = self.schedule.clone();
        self.put_sysvar(&schedule);
        let accounts = RwLock::new(std::mem::take(&mut self.st.accounts));
        {
            let cb = Callback {
                accounts: &accounts,
                features: &self.features,
            };
            self.processor = self.processor.new_from(self.st.slot, clock.epoch);
            self.processor.fill_missing_sysvar_cache_entries(&cb);
        }
        self.st.accounts = accounts.into_inner().unwrap();
    }

    /// Moves to a later slot (blocks in between are skipped).
    pub fn advance_to(&mut self, slot: u64) {
        assert!(slot >= self.st.slot);
        if slot == self.st.slot {
            return;
        }
        self.st.slot = slot;
        self.push_blockhash();
        self.refresh_sysvars();
    }

    /// Produces `n` empty blocks, ageing out blockhashes.
    pub fn age(&mut self, n: u64) {
        for _ in 0..n {
            self.st.slot += 1;
            self.push_blockhash();
        }
        self.refresh_sysvars();
    }

    pub fn snapshot(&self) -> BankSnapshot {
        BankSnapshot(self.st.clone())
    }

    /// Fork switch: continue from an earlier state. Blockhashes produced from here differ.
    pub fn restore(&mut self, s: &BankSnapshot) {
        self.st = s.0.clone();
        self.fork_nonce = self.fork_nonce.wrapping_add(0x1_0000);
        self.refresh_sysvars();
    }

    /// Switches to another state of the same chain for reading and simulating.
    pub fn view(&mut self, s: &BankSnapshot) {
        self.st = s.0.clone();
        self.refresh_sysvars();
    }

    pub fn latest_blockhash(&self) -> Hash {
        *self.st.blockhashes.back().unwrap()
    }
    pub fn blockhash_valid(&self, h: &Hash) -> bool {
        self.st.blockhashes.contains(h)
    }

    pub fn get(&self, k: &Pubkey) -> Option<&AccountSharedData> {
        self.st.accounts.get(k).filter(|a| a.lamports() > 0)
    }
    pub fn lamports(&self, k: &Pubkey) -> u64 {
        self.get(k).map_or(0, |a| a.lamports())
    }
    pub fn set(&mut self, k: Pubkey, a: Account) {
        self.st.accounts.insert(k, a.into());
    }
    pub fn fund(&mut self, k: Pubkey, lamports: u64) {
        self.set(
            k,
            Account {
                lamports,
                data: vec![],
                owner: solana_sdk::system_program::id(),
                executable: false,
                rent_epoch: u64::MAX,
            },
        );
    }

    fn sanitize(&self, tx: &Transaction) -> Result<SanitizedTransaction, TransactionError> {
        let vtx = VersionedTransaction::from(tx.clone());
        vtx.sanitize()
            .map_err(|_| TransactionError::SanitizeFailure)?;
        let hash = vtx.message.hash();
        SanitizedTransaction::try_create(
            vtx,
            hash,
            Some(false),
            SimpleAddressLoader::Disabled,
            &self.reserved,
        )
    }

    fn execute(
        &mut self,
        tx: &Transaction,
        plan: Option<CrashPlan>,
        commit: bool,
        sig_verify: bool,
    ) -> TxResult {
        svm::begin_transaction(plan);
        let fail = |e: TransactionError| TxResult {
            status: Err(e),
            landed: false,
            fee: 0,
            logs: vec![],
            diffs: vec![],
            trace: svm::end_transaction(),
            units: 0,
        };
        let wire = bincode::serialized_size(tx).unwrap_or(u64::MAX);
        if wire > PACKET_DATA_SIZE as u64 {
            return fail(TransactionError::SanitizeFailure);
        }
        let stx = match self.sanitize(tx) {
            Ok(s) => s,
            Err(e) => return fail(e),
        };
        if sig_verify && tx.verify().is_err() {
            return fail(TransactionError::SignatureFailure);
        }
        if !self.blockhash_valid(&tx.message.recent_blockhash) {
            return fail(TransactionError::BlockhashNotFound);
        }
        if commit && self.st.status.contains_key(&tx.signatures[0]) {
            return fail(TransactionError::AlreadyProcessed);
        }
        self.executed += 1;
        let sigs = stx.message().num_total_signatures();
        let fee = sigs * self.lamports_per_signature;
        let details = CheckedTransactionDetails::new(
            None,
            Ok(SVMTransactionExecutionAndFeeBudgetLimits {
                budget: SVMTransactionExecutionBudget::default(),
                loaded_accounts_data_size_limit: MAX_LOADED_ACCOUNTS_DATA_SIZE_BYTES,
                fee_details: solana_fee_structure::FeeDetails::new(fee, 0),
            }),
        );
        let rent_collector = solana_rent_collector::RentCollector {
            epoch: self.epoch(),
            epoch_schedule: self.schedule.clone(),
            slots_per_year: 78_892_314.984,
            rent: self.rent.clone(),
        };
        let env = TransactionProcessingEnvironment {
            blockhash: self.latest_blockhash(),
            blockhash_lamports_per_signature: self.lamports_per_signature,
            epoch_total_stake: 0,
            feature_set: self.svm_features,
            rent_collector: Some(&rent_collector),
        };
        let config = TransactionProcessingConfig {
            recording_config: ExecutionRecordingConfig {
                enable_log_recording: true,
                ..Default::default()
            },
            ..Default::default()
        };
        let accounts = RwLock::new(std::mem::take(&mut self.st.accounts));
        let mut out = {
            let cb = Callback {
                accounts: &accounts,
                features: &self.features,
            };
            self.processor.load_and_execute_sanitized_transactions(
                &cb,
                &[stx],
                vec![Ok(details)],
                &env,
                &config,
            )
        };
        self.st.accounts = accounts.into_inner().unwrap();
        let trace = svm::end_transaction();
        let processed = match out.processing_results.pop().unwrap() {
            Ok(p) => p,
            Err(e) => {
                return TxResult {
                    status: Err(e),
                    landed: false,
                    fee: 0,
                    logs: vec![],
                    diffs: vec![],
                    trace,
                    units: 0,
                }
            }
        };
        let status = processed.status();
        let mut logs = vec![];
        let mut units = 0;
        let mut writes: Vec<(Pubkey, AccountSharedData)> = vec![];
        let payer = tx.message.account_keys[0];
        match &processed {
            ProcessedTransaction::Executed(e) => {
                logs = e.execution_details.log_messages.clone().unwrap_or_default();
                units = e.execution_details.executed_units;
                if status.is_ok() {
                    for (i, (k, a)) in e.loaded_transaction.accounts.iter().enumerate() {
                        if i < tx.message.account_keys.len() && tx.message.is_maybe_writable(i, Some(&self.reserved)) {
                            writes.push((*k, a.clone()));
                        }
                    }
                } else {
                    writes.push((payer, rollback_payer(&e.loaded_transaction.rollback_accounts)));
                }
            }
            ProcessedTransaction::FeesOnly(f) => {
                writes.push((payer, rollback_payer(&f.rollback_accounts)));
            }
        }
        let mut diffs = vec![];
        for (k, a) in writes {
            let pre = self.st.accounts.get(&k).filter(|x| x.lamports() > 0).cloned();
            let post = (a.lamports() > 0).then_some(a);
            let same = match (&pre, &post) {
                (None, None) => true,
                (Some(p), Some(q)) => {
                    p.lamports() == q.lamports() && p.owner() == q.owner() && p.data() == q.data()
                }
                _ => false,
            };
            if same {
                continue;
            }
            if commit {
                match &post {
                    Some(a) => {
                        self.st.accounts.insert(k, a.clone());
                    }
                    None => {
                        self.st.accounts.remove(&k);
                    }
                }
            }
            diffs.push(Diff { key: k, pre, post });
        }
        if commit {
            self.st
                .status
                .insert(tx.signatures[0], (self.st.slot, status.clone()));
        }
        TxResult {
            status,
            landed: true,
            fee,
            logs,
            diffs,
            trace,
            units,
        }
    }

    pub fn process(&mut self, tx: &Transaction, plan: Option<CrashPlan>) -> TxResult {
        self.execute(tx, plan, true, true)
    }
    pub fn simulate(&mut self, tx: &Transaction, sig_verify: bool) -> TxResult {
        self.execute(tx, None, false, sig_verify)
    }
}

fn rollback_payer(r: &solana_svm::rollback_accounts::RollbackAccounts) -> AccountSharedData {
    use solana_svm::rollback_accounts::RollbackAccounts::*;
    match r {
        FeePayerOnly { fee_payer_account }
        | SeparateNonceAndFeePayer {
            fee_payer_account, ..
        } => fee_payer_account.clone(),
        SameNonceAndFeePayer { nonce } => nonce.account().clone(),
    }
}
