//! A bank with the slashing program, and evidence to submit to it
#![allow(dead_code)]
#[allow(unused_imports)]
pub use {
    solana_ledger::shred::{ProcessShredsStats, ReedSolomonCache, Shred, Shredder},
    solana_program::pubkey::Pubkey,
    solana_program_test::*,
    solana_sdk::{
        account::{Account, AccountSharedData},
        clock::Clock,
        epoch_schedule::EpochSchedule,
        hash::Hash,
        instruction::{AccountMeta, Instruction, InstructionError},
        rent::Rent,
        signature::{Keypair, Signer},
        transaction::{Transaction, TransactionError},
    },
    solana_slashing_program::{
        id,
        instruction::{
            close_violation_report, duplicate_block_proof_with_sigverify_and_prefund,
            DuplicateBlockProofInstructionData,
        },
        processor::process_instruction,
        state::{ProofType, ViolationReport},
    },
    solana_system_interface::instruction as system_instruction,
    spl_pod::{bytemuck::pod_from_bytes, primitives::PodU64},
};
use {solana_entry::entry::Entry, solana_system_transaction as system_transaction};

pub const SLOT: u64 = 53084024;
pub const HEADER: usize = std::mem::size_of::<ViolationReport>();

pub struct World {
    pub ctx: ProgramTestContext,
    pub nonce: u64,
}

impl World {
    pub async fn new() -> Self {
        Self::with(|_| ()).await
    }

    pub async fn with(setup: impl FnOnce(&mut ProgramTest)) -> Self {
        let mut program_test = ProgramTest::new(
            "solana_slashing_program",
            id(),
            processor!(process_instruction),
        );
        setup(&mut program_test);
        let ctx = program_test.start_with_context().await;
        let mut world = World { ctx, nonce: 0 };
        let epoch = world.schedule().get_epoch(SLOT);
        world.clock(SLOT, epoch).await;
        world
    }

    pub fn schedule(&self) -> EpochSchedule {
        self.ctx.genesis_config().epoch_schedule.clone()
    }

    pub async fn clock(&mut self, slot: u64, epoch: u64) {
        let mut clock: Clock = self.ctx.banks_client.get_sysvar().await.unwrap();
        clock.slot = slot;
        clock.epoch = epoch;
        clock.leader_schedule_epoch = epoch + 1;
        self.ctx.set_sysvar(&clock);
    }

    /// An account holding `data`
    pub fn account(&mut self, owner: Pubkey, data: Vec<u8>) -> Pubkey {
        let key = Pubkey::new_unique();
        self.put(key, owner, data);
        key
    }

    pub fn put(&mut self, key: Pubkey, owner: Pubkey, data: Vec<u8>) {
        let account = Account {
            lamports: Rent::default().minimum_balance(data.len()),
            data,
            owner,
            ..Account::default()
        };
        self.ctx.set_account(&key, &AccountSharedData::from(account));
    }

    pub async fn get(&mut self, key: Pubkey) -> Option<Account> {
        self.ctx.banks_client.get_account(key).await.unwrap()
    }

    pub async fn send(&mut self, instructions: &[Instruction]) -> Result<(), TransactionError> {
        // a transfer of a new amount keeps otherwise equal transactions apart
        self.nonce += 1;
        let mut instructions = instructions.to_vec();
        let payer = self.ctx.payer.pubkey();
        instructions.push(system_instruction::transfer(&payer, &payer, self.nonce));
        let transaction = Transaction::new_signed_with_payer(
            &instructions,
            Some(&payer),
            &[&self.ctx.payer],
            self.ctx.last_blockhash,
        );
        self.ctx
            .banks_client
            .process_transaction(transaction)
            .await
            .map_err(|e| e.unwrap())
    }

    /// Report with the documented three instructions
    pub async fn report(&mut self, evidence: &Evidence) -> Result<(), TransactionError> {
        let instructions = self.instructions(evidence);
        self.send(&instructions).await
    }

    pub fn instructions(&mut self, evidence: &Evidence) -> [Instruction; 3] {
        let account = self.account(Pubkey::new_unique(), evidence.packed());
        let payer = self.ctx.payer.pubkey();
        duplicate_block_proof_with_sigverify_and_prefund(
            &account,
            &evidence.data,
            Some(&payer),
            &Rent::default(),
        )
    }

    pub async fn stored(&mut self, evidence: &Evidence) -> Option<(ViolationReport, Vec<u8>, Account)> {
        let account = self.get(evidence.address()).await?;
        if account.owner != id() || account.data.len() < HEADER {
            return None;
        }
        let report: &ViolationReport = pod_from_bytes(&account.data[..HEADER]).unwrap();
        Some((*report, account.data[HEADER..].to_vec(), account.clone()))
    }

    pub async fn close(&mut self, report: Pubkey, destination: Pubkey) -> Result<(), TransactionError> {
        self.send(&[close_violation_report(&report, &destination)]).await
    }
}

#[derive(Clone)]
pub struct Evidence {
    pub shred1: Vec<u8>,
    pub shred2: Vec<u8>,
    pub data: DuplicateBlockProofInstructionData,
}

impl Evidence {
    pub fn new(leader: &Pubkey, shred1: &Shred, shred2: &Shred) -> Self {
        Self {
            shred1: shred1.payload().as_ref().to_vec(),
            shred2: shred2.payload().as_ref().to_vec(),
            data: DuplicateBlockProofInstructionData {
                offset: PodU64::from(0),
                slot: PodU64::from(shred1.slot()),
                node_pubkey: *leader,
                reporter: Pubkey::new_unique(),
                destination: Pubkey::new_unique(),
                shred_1_merkle_root: shred1.merkle_root().unwrap(),
                shred_1_signature: (*shred1.signature()).into(),
                shred_2_merkle_root: shred2.merkle_root().unwrap(),
                shred_2_signature: (*shred2.signature()).into(),
            },
        }
    }

    /// Two different data shreds of one position
    pub fn simple(leader: &Keypair, slot: u64) -> Self {
        let shreds = [data(leader, slot, 64, 5, true), data(leader, slot, 64, 5, true)];
        Self::new(&leader.pubkey(), &shreds[0][0], &shreds[1][0])
    }

    pub fn packed(&self) -> Vec<u8> {
        let mut packed = vec![];
        for shred in [&self.shred1, &self.shred2] {
            packed.extend_from_slice(&(shred.len() as u32).to_le_bytes());
            packed.extend_from_slice(shred);
        }
        packed
    }

    pub fn address(&self) -> Pubkey {
        Pubkey::find_program_address(
            &[
                self.data.node_pubkey.as_ref(),
                &u64::from(self.data.slot).to_le_bytes(),
                &[u8::from(ProofType::DuplicateBlockProof)],
            ],
            &id(),
        )
        .0
    }
}

pub fn shreds(
    leader: &Keypair,
    slot: u64,
    index: u32,
    entries: usize,
    last: bool,
    version: u16,
) -> (Vec<Shred>, Vec<Shred>) {
    let entries: Vec<_> = (0..entries)
        .map(|_| {
            let transaction = system_transaction::transfer(
                &Keypair::new(),
                &Pubkey::new_unique(),
                1,
                Hash::new_unique(),
            );
            Entry::new(&Hash::new_unique(), 1, vec![transaction])
        })
        .collect();
    Shredder::new(slot, slot - 1, 0, version).unwrap().entries_to_shreds(
        leader,
        &entries,
        last,
        Some(Hash::new_unique()),
        index,
        index,
        true,
        &ReedSolomonCache::default(),
        &mut ProcessShredsStats::default(),
    )
}

pub fn data(leader: &Keypair, slot: u64, index: u32, entries: usize, last: bool) -> Vec<Shred> {
    shreds(leader, slot, index, entries, last, 0).0
}

pub fn code(leader: &Keypair, slot: u64, index: u32, entries: usize, last: bool) -> Vec<Shred> {
    shreds(leader, slot, index, entries, last, 0).1
}
