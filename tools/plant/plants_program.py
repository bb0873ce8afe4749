"""The planted bugs of the on-chain program: (id, property, edits, needs, what_it_breaks, demo)"""
P = 'program/src/'
HEAD = 'mod common;\nuse common::*;\n\n'
PLANTS = []

def plant(id, property, edits, needs, breaks, demo):
    PLANTS.append((id, property, edits, needs, breaks, HEAD + demo))

plant('S01-self-index', 'S01', [(P + 'sigverify.rs',
'''        if instruction_index != current_index {
''',
'''        // u16::MAX is the precompile's own shorthand for "this instruction"
        if instruction_index != current_index && instruction_index != u16::MAX {
''')],
'a transaction whose ed25519 instruction refers to its own data (instruction index 65535) and holds another '
"key's signatures at the offsets at which the slashing instruction holds the victim's key",
"anyone without the node's key obtains a report against it",
'''#[tokio::test]
async fn forged_signatures_are_refused() {
    let mut world = World::new().await;
    let victim = Keypair::new();
    let attacker = Keypair::new();
    // evidence signed by the attacker, naming the victim
    let mut evidence = Evidence::simple(&attacker, SLOT);
    evidence.data.node_pubkey = victim.pubkey();
    evidence.data.reporter = victim.pubkey();
    let [fund, mut verify, slash] = world.instructions(&evidence);
    let mut own = slash.data.clone();
    let reporter_offset = 1 + 16 + 32;
    own[reporter_offset..reporter_offset + 32].copy_from_slice(attacker.pubkey().as_ref());
    let signature = |start: usize, verify: &mut Vec<u8>, message: u16, signature: u16| {
        for (i, value) in [signature, u16::MAX, reporter_offset as u16, u16::MAX, message, 32, u16::MAX]
            .iter()
            .enumerate()
        {
            verify[start + 2 * i..start + 2 * i + 2].copy_from_slice(&value.to_le_bytes());
        }
    };
    let message = DuplicateBlockProofInstructionData::sigverify_data_offset() as u16;
    signature(2, &mut own, message, message + 32);
    signature(16, &mut own, message + 96, message + 128);
    own[0] = 2;
    own[1] = 0;
    verify.data = own;
    let _ = world.send(&[fund, verify, slash]).await;
    assert!(world.stored(&evidence).await.is_none(), "the victim signed nothing");

    let honest = Evidence::simple(&victim, SLOT);
    world.report(&honest).await.unwrap();
    assert!(world.stored(&honest).await.is_some());
}
''')

plant('S03-deep-trees', 'S03', [(P + 'shred.rs',
'''            let proof_size = shred_variant & 0x0F;
''',
'''            // 3 bits are enough for batches of up to 2^7 shreds
            let proof_size = shred_variant & 0x07;
''')],
'evidence from an erasure set of more than 128 shreds, whose merkle proofs have 8 or more entries',
'genuine evidence from large erasure sets is refused',
'''use solana_program::hash::hashv;

/// A data shred whose merkle tree has `depth` levels
fn deep(leader: &Keypair, depth: usize) -> (Vec<u8>, Hash) {
    let shred = data(leader, SLOT, 0, 5, false).remove(0);
    let mut payload = shred.payload().as_ref().to_vec();
    assert_eq!(payload[64] & 0xf0, 0x90);
    payload[64] = 0x90 | depth as u8;
    let index = shred.index() - shred.fec_set_index();
    let start = payload.len() - 20 * depth;
    let mut node = hashv(&[b"\\x00SOLANA_MERKLE_SHREDS_LEAF", &payload[64..start]]);
    for (level, other) in payload[start..].chunks(20).enumerate() {
        let this = node.as_ref()[..20].to_vec();
        let (left, right) = if (index >> level) % 2 == 0 { (&this[..], other) } else { (other, &this[..]) };
        node = hashv(&[b"\\x01SOLANA_MERKLE_SHREDS_NODE", left, right]);
    }
    let signature = leader.sign_message(node.as_ref());
    payload[..64].copy_from_slice(signature.as_ref());
    (payload, node)
}

#[tokio::test]
async fn large_sets_are_evidence() {
    let mut world = World::new().await;
    for depth in [6, 7, 8, 10] {
        let leader = Keypair::new();
        let mut evidence = Evidence::simple(&leader, SLOT);
        let ((one, root1), (two, root2)) = (deep(&leader, depth), deep(&leader, depth));
        evidence.data.shred_1_merkle_root = root1;
        evidence.data.shred_1_signature.copy_from_slice(&one[..64]);
        evidence.data.shred_2_merkle_root = root2;
        evidence.data.shred_2_signature.copy_from_slice(&two[..64]);
        (evidence.shred1, evidence.shred2) = (one, two);
        world.report(&evidence).await.unwrap();
        assert!(world.stored(&evidence).await.is_some());
    }
}
''')

plant('S04-larger-evidence', 'S04', [(P + 'state.rs',
'''    // Check if it was already reported
    if accounts.violation_account_exists()? {
''',
'''    // Check if it was already reported, an account which is too small to hold this
    // report was not
    if accounts.violation_account_exists()?
        && accounts.violation_pda_account.data_len() >= ViolationReport::packed_len(&proof_data)
    {
''')],
'a second report of the same violation with larger evidence, e.g. coding shreds after data shreds',
'an existing report is overwritten: reporter, destination, epoch and evidence change',
'''#[tokio::test]
async fn the_first_report_wins() {
    let mut world = World::new().await;
    let leader = Keypair::new();
    let (data1, code1) = shreds(&leader, SLOT, 0, 5, true, 0);
    let (data2, code2) = shreds(&leader, SLOT, 0, 5, true, 0);
    let first = Evidence::new(&leader.pubkey(), &data1[0], &data2[0]);
    let second = Evidence::new(&leader.pubkey(), &code1[0], &code2[0]);
    world.report(&first).await.unwrap();
    let before = world.stored(&first).await.unwrap();
    world.report(&second).await.unwrap_err();
    world.report(&first).await.unwrap_err();
    let after = world.stored(&first).await.unwrap();
    assert_eq!(before.2.data, after.2.data);
    assert_eq!(after.0.reporter, first.data.reporter);
}
''')

plant('S05-order', 'S05', [(P + 'duplicate_block_proof.rs',
'''        let mut buf = vec![];
        buf.extend_from_slice(&(self.shred1.len() as u32).to_le_bytes());
        buf.extend_from_slice(self.shred1);
        buf.extend_from_slice(&(self.shred2.len() as u32).to_le_bytes());
        buf.extend_from_slice(self.shred2);
        buf
''',
'''        let mut buf = Vec::with_capacity(self.packed_len());
        // Larger shreds first
        let mut shreds = [self.shred1, self.shred2];
        shreds.sort_by_key(|shred| std::cmp::Reverse(shred.len()));
        for shred in shreds {
            buf.extend_from_slice(&(shred.len() as u32).to_le_bytes());
            buf.extend_from_slice(shred);
        }
        buf
''')],
'evidence consisting of a data shred followed by a coding shred',
'the report contains the evidence in another order than submitted',
'''#[tokio::test]
async fn evidence_is_stored_in_order() {
    let mut world = World::new().await;
    let leader = Keypair::new();
    let (data1, code1) = shreds(&leader, SLOT, 0, 5, true, 0);
    let (data2, code2) = shreds(&leader, SLOT, 0, 5, true, 0);
    for (one, two) in [(&data1[0], &code2[0]), (&code1[0], &data2[0]), (&data1[0], &data2[0])] {
        let evidence = Evidence::new(&leader.pubkey(), one, two);
        world.report(&evidence).await.unwrap();
        assert_eq!(world.stored(&evidence).await.unwrap().1, evidence.packed());
        world.put(evidence.address(), Pubkey::default(), vec![]);
    }
}
''')

plant('S05-epoch', 'S05', [(P + 'processor.rs',
'''                epoch: PodEpoch::from(Clock::get()?.epoch),
''',
'''                epoch: PodEpoch::from(
                    EpochSchedule::get()?
                        .get_epoch(u64::from(data.slot))
                        .min(Clock::get()?.epoch),
                ),
''')],
'a violation of one epoch that is reported in the next one',
'the report records the epoch of the violation, not the one in which it was recorded, and can be closed an epoch early',
'''#[tokio::test]
async fn the_epoch_of_the_report_is_recorded() {
    let mut world = World::new().await;
    let schedule = world.schedule();
    let leader = Keypair::new();
    let epoch = schedule.get_epoch(SLOT);
    let evidence = Evidence::simple(&leader, SLOT);
    world.clock(SLOT + schedule.slots_per_epoch, epoch + 1).await;
    world.report(&evidence).await.unwrap();
    assert_eq!(world.stored(&evidence).await.unwrap().0.epoch(), epoch + 1);
}
''')

plant('S06-last-slot', 'S06', [(P + 'processor.rs',
'''    if elapsed > epoch_schedule.slots_per_epoch {
''',
'''    if elapsed >= epoch_schedule.slots_per_epoch {
''')],
'evidence submitted exactly one epoch worth of slots after the violation',
'the window is one slot short',
'''#[tokio::test]
async fn the_window_includes_its_last_slot() {
    let mut world = World::new().await;
    let schedule = world.schedule();
    let leader = Keypair::new();
    for (after, accepted) in [(0, true), (1, true), (schedule.slots_per_epoch - 1, true), (schedule.slots_per_epoch, true), (schedule.slots_per_epoch + 1, false)] {
        world.clock(SLOT + after, schedule.get_epoch(SLOT + after)).await;
        let evidence = Evidence::simple(&leader, SLOT);
        assert_eq!(world.report(&evidence).await.is_ok(), accepted, "{after} slots later");
        world.put(evidence.address(), Pubkey::default(), vec![]);
    }
}
''')

plant('S06-mainnet-epochs', 'S06', [(P + 'processor.rs',
'''    let epoch_schedule = EpochSchedule::get()?;
    if elapsed > epoch_schedule.slots_per_epoch {
''',
'''    if elapsed > solana_program::clock::DEFAULT_SLOTS_PER_EPOCH {
'''), (P + 'processor.rs',
'''        sysvar::{clock::Clock, epoch_schedule::EpochSchedule, Sysvar},
''',
'''        sysvar::{clock::Clock, Sysvar},
''')],
'a cluster whose epochs are not 432000 slots long',
'the window is not one epoch: old violations are accepted and, with short epochs, one violation can be reported again after its report was closed',
'''#[tokio::test]
async fn the_window_follows_the_schedule() {
    let mut world = World::new().await;
    let schedule = EpochSchedule::custom(8192, 8192, false);
    world.ctx.set_sysvar(&schedule);
    let leader = Keypair::new();
    for (after, accepted) in [(0, true), (8192, true), (8193, false), (3 * 8192, false)] {
        world.clock(SLOT + after, schedule.get_epoch(SLOT + after)).await;
        let evidence = Evidence::simple(&leader, SLOT);
        assert_eq!(world.report(&evidence).await.is_ok(), accepted, "{after} slots later");
        world.put(evidence.address(), Pubkey::default(), vec![]);
    }
}
''')

plant('S08-rent-only', 'S08', [(P + 'state.rs',
'''    // Drop the report account to close it
    drop(report_data);
''',
'''    // The rent of the report is what was paid for it
    let rent = Rent::get()?.minimum_balance(report_data.len().max(
        ViolationReport::size::<DuplicateBlockProofData>(),
    ));

    // Drop the report account to close it
    drop(report_data);
'''), (P + 'state.rs',
'''    let report_lamports = report_account.lamports();
    **report_account.try_borrow_mut_lamports()? = 0;
''',
'''    let total_lamports = report_account.lamports();
    let report_lamports = total_lamports.min(rent);
    **report_account.try_borrow_mut_lamports()? = total_lamports.saturating_sub(report_lamports);
''')],
'a report whose account received at least a rent exempt minimum of further lamports before it is closed',
'the further lamports stay in an account that nobody can sign for, instead of going to the destination',
'''#[tokio::test]
async fn closing_pays_everything() {
    let mut world = World::new().await;
    let schedule = world.schedule();
    let epoch = schedule.get_epoch(SLOT);
    for extra in [0, 5_000_000] {
        let leader = Keypair::new();
        let evidence = Evidence::simple(&leader, SLOT);
        world.clock(SLOT, epoch).await;
        world.report(&evidence).await.unwrap();
        if extra > 0 {
            let payer = world.ctx.payer.pubkey();
            world.send(&[system_instruction::transfer(&payer, &evidence.address(), extra)]).await.unwrap();
        }
        let lamports = world.get(evidence.address()).await.unwrap().lamports;
        world.clock(SLOT + 3 * schedule.slots_per_epoch, epoch + 3).await;
        world.close(evidence.address(), evidence.data.destination).await.unwrap();
        assert!(world.get(evidence.address()).await.is_none());
        assert_eq!(world.get(evidence.data.destination).await.unwrap().lamports, lamports);
    }
}
''')

plant('S08-unset-destination', 'S08', [(P + 'state.rs',
'''    if destination != *destination_account.key {
''',
'''    // Reports without a destination are credited to whoever closes them
    if destination != Pubkey::default() && destination != *destination_account.key {
''')],
'a report recorded with the all zero key as its destination',
'the lamports of the report go to whoever closes it',
'''#[tokio::test]
async fn only_the_recorded_destination_is_paid() {
    let mut world = World::new().await;
    let schedule = world.schedule();
    let epoch = schedule.get_epoch(SLOT);
    let leader = Keypair::new();
    let mut evidence = Evidence::simple(&leader, SLOT);
    evidence.data.destination = Pubkey::default();
    world.report(&evidence).await.unwrap();
    world.clock(SLOT + 3 * schedule.slots_per_epoch, epoch + 3).await;
    let thief = Pubkey::new_unique();
    world.close(evidence.address(), thief).await.unwrap_err();
    assert!(world.stored(&evidence).await.is_some());
    assert!(world.get(thief).await.is_none());
}
''')

plant('S09-surplus', 'S09', [(P + 'state.rs',
'''    // Write the report
    accounts.write_violation_report(report, proof_data)
''',
'''    // Return any surplus of the prefunding
    let surplus = accounts.violation_pda_account.lamports().saturating_sub(
        Rent::get()?.minimum_balance(ViolationReport::size::<DuplicateBlockProofData>()),
    );
    if surplus > 0 && accounts.proof_account.is_writable {
        **accounts.violation_pda_account.try_borrow_mut_lamports()? = accounts
            .violation_pda_account
            .lamports()
            .saturating_sub(surplus);
        **accounts.proof_account.try_borrow_mut_lamports()? =
            accounts.proof_account.lamports().saturating_add(surplus);
    }

    // Write the report
    accounts.write_violation_report(report, proof_data)
''')],
'a report whose address holds more than the documented prefunding, submitted with a writable evidence account',
'the lamports of the evidence account change',
'''#[tokio::test]
async fn evidence_accounts_are_left_alone() {
    let mut world = World::new().await;
    let leader = Keypair::new();
    let evidence = Evidence::simple(&leader, SLOT);
    let payer = world.ctx.payer.pubkey();
    world.send(&[system_instruction::transfer(&payer, &evidence.address(), 50_000_000)]).await.unwrap();
    let mut instructions = world.instructions(&evidence);
    instructions[2].accounts[0].is_writable = true;
    let account = instructions[2].accounts[0].pubkey;
    let before = world.get(account).await.unwrap();
    world.send(&instructions).await.unwrap();
    let after = world.get(account).await.unwrap();
    assert_eq!((before.lamports, before.owner, before.data), (after.lamports, after.owner, after.data));
}
''')

plant('S10-shred-size', 'S10', [(P + 'state.rs',
'''                // Duplicate block proof consists of 2 shreds that can be `PACKET_DATA_SIZE`.
                DuplicateBlockProofData::size(PACKET_DATA_SIZE)
''',
'''                // Duplicate block proof consists of 2 shreds, the packets they come in
                // additionally contain a repair nonce.
                DuplicateBlockProofData::size(PACKET_DATA_SIZE - std::mem::size_of::<u32>())
''')],
'evidence of which both shreds are as long as a packet',
'the documented prefunding amount is not enough for evidence of the maximum size',
'''#[tokio::test]
async fn the_documented_prefunding_is_enough() {
    let mut world = World::new().await;
    let leader = Keypair::new();
    let (one, two) = (code(&leader, SLOT, 0, 5, true), code(&leader, SLOT, 0, 5, true));
    let mut evidence = Evidence::new(&leader.pubkey(), &one[0], &two[0]);
    evidence.shred1.resize(1232, 0);
    evidence.shred2.resize(1232, 0);
    world.report(&evidence).await.unwrap();
    assert!(world.stored(&evidence).await.is_some());
}
''')

plant('S11-half-report', 'S11', [(P + 'state.rs',
'''    accounts.violation_pda_account.realloc(data_len, false)?;
''',
'''    if accounts
        .violation_pda_account
        .realloc(data_len, false)
        .is_err()
    {
        // The next attempt continues from here
        msg!("Unable to allocate {} bytes for the report", data_len);
        return Ok(());
    }
''')],
'evidence that is longer than what an account can grow by in one instruction (10 KiB)',
'the submission succeeds without a report, and leaves the report address taken over but empty',
'''#[tokio::test]
async fn failing_reports_leave_nothing() {
    let mut world = World::new().await;
    let leader = Keypair::new();
    let mut evidence = Evidence::simple(&leader, SLOT);
    evidence.shred1.resize(6000, 0);
    evidence.shred2.resize(6000, 0);
    let payer = world.ctx.payer.pubkey();
    world.send(&[system_instruction::transfer(&payer, &evidence.address(), 500_000_000)]).await.unwrap();
    let before = world.get(evidence.address()).await;
    let sent = world.report(&evidence).await;
    if world.stored(&evidence).await.is_none() {
        sent.unwrap_err();
        assert_eq!(before, world.get(evidence.address()).await);
    }
}
''')

plant('S12-second-length', 'S12', [(P + 'duplicate_block_proof.rs',
'''        if shred2.len() < shred2_length {
            return Err(SlashingError::ProofBufferTooSmall);
        }
        let (shred2, _) = shred2.split_at(shred2_length);

        Ok(Self { shred1, shred2 })
''',
'''        Ok(Self {
            shred1,
            shred2: &shred2[..shred2_length],
        })
''')],
'an evidence account in which the length of the second shred exceeds the bytes that follow',
'the program aborts on malformed evidence',
'''#[tokio::test]
async fn truncated_evidence_is_refused() {
    let mut world = World::new().await;
    let leader = Keypair::new();
    let evidence = Evidence::simple(&leader, SLOT);
    for cut in [1, 600, 1202, 1203, 1204, 1207, 1208, 2400] {
        let mut instructions = world.instructions(&evidence);
        let mut packed = evidence.packed();
        packed.truncate(packed.len() - cut);
        instructions[2].accounts[0].pubkey = world.account(id(), packed);
        let err = world.send(&instructions).await.unwrap_err();
        let TransactionError::InstructionError(2, InstructionError::Custom(_)) = err else {
            panic!("not refused with an error of the program: {err:?}");
        };
    }
}
''')

plant('S12-empty', 'S12', [(P + 'instruction.rs',
'''    if input.is_empty() {
        Err(ProgramError::InvalidInstructionData)
    } else {
        SlashingInstruction::try_from(input[0])
            .map_err(|_| SlashingError::InvalidInstruction.into())
    }
''',
'''    let (instruction_type, _) = input.split_at(1);
    SlashingInstruction::try_from(instruction_type[0])
        .map_err(|_| SlashingError::InvalidInstruction.into())
''')],
'an instruction without any data',
'the program aborts',
'''#[tokio::test]
async fn empty_instructions_are_refused() {
    let mut world = World::new().await;
    for data in [vec![], vec![7], vec![0], vec![1]] {
        let instruction = Instruction { program_id: id(), accounts: vec![], data };
        let err = world.send(&[instruction]).await.unwrap_err();
        assert!(
            !matches!(err, TransactionError::InstructionError(_, InstructionError::ProgramFailedToComplete)),
            "{err:?}"
        );
    }
}
''')

plant('S14-any-account', 'S14', [(P + 'state.rs',
'''    if *report_key != *accounts.violation_account() {
        return Err(ProgramError::from(
            SlashingError::InvalidViolationReportAcccount,
        ));
    }

''', ''), (P + 'state.rs',
'''    // Assign the slashing program as the owner
    let assign_instruction = system_instruction::assign(report_key, &id());
    invoke_signed(&assign_instruction, &cpi_accounts, &[&seeds])?;
''',
'''    // Assign the slashing program as the owner, which only succeeds for the report
    // address
    if !check_id(accounts.violation_pda_account.owner) {
        let assign_instruction = system_instruction::assign(accounts.violation_account(), &id());
        invoke_signed(&assign_instruction, &cpi_accounts, &[&seeds])?;
    }
''')],
'an account at another address that someone created for the slashing program, passed as the report account',
'a report is stored at an address that is not the one of its violation, any number of times',
'''#[tokio::test]
async fn reports_are_stored_at_their_address() {
    let mut world = World::new().await;
    let leader = Keypair::new();
    let evidence = Evidence::simple(&leader, SLOT);
    let mut instructions = world.instructions(&evidence);
    let planted = world.account(id(), vec![0; 16]);
    world.send(&[system_instruction::transfer(&world.ctx.payer.pubkey(), &planted, 500_000_000)]).await.unwrap();
    instructions[2].accounts[1].pubkey = planted;
    let before = world.get(planted).await;
    world.send(&instructions).await.unwrap_err();
    assert_eq!(before, world.get(planted).await);
    world.report(&evidence).await.unwrap();
    assert!(world.stored(&evidence).await.is_some());
}
''')

plant('S02-coding-count', 'S02', [(P + 'shred.rs',
"""        let num_data = u32::try_from(self.num_data_shreds()?)
            .map_err(|_| SlashingError::ShredDeserializationError)?;
        self.fec_set_index()?
            .checked_add(num_data)
""",
"""        let num_shreds = u32::try_from(self.num_data_shreds()?.max(self.num_coding_shreds()?))
            .map_err(|_| SlashingError::ShredDeserializationError)?;
        self.fec_set_index()?
            .checked_add(num_shreds)
""")],
'a coding shred of an erasure set with fewer data than coding shreds, and a shred of the set following it',
'two consecutive erasure sets of one honest block are taken for overlapping ones',
"""/// A coding shred of a set of `num_data` shreds from `fec` on, which is the only one of its tree
fn lonely(leader: &Keypair, fec: u32, num_data: u16, num_coding: u16) -> Evidence {
    let shred = code(leader, SLOT, 0, 5, false).remove(0);
    let mut evidence = Evidence::new(&leader.pubkey(), &shred, &shred);
    evidence.shred1[79..83].copy_from_slice(&fec.to_le_bytes());
    evidence.shred1[73..77].copy_from_slice(&fec.to_le_bytes());
    evidence.shred1[83..85].copy_from_slice(&num_data.to_le_bytes());
    evidence.shred1[85..87].copy_from_slice(&num_coding.to_le_bytes());
    evidence.shred1[87..89].copy_from_slice(&0u16.to_le_bytes());
    let depth = (evidence.shred1[64] & 0x0f) as usize;
    let end = evidence.shred1.len();
    let start = end - 20 * depth;
    let mut node = hashv(&[b"\\x00SOLANA_MERKLE_SHREDS_LEAF", &evidence.shred1[64..start]]);
    for (level, other) in evidence.shred1[start..].chunks(20).enumerate() {
        let this = node.as_ref()[..20].to_vec();
        let (left, right) = if (num_data >> level) % 2 == 0 { (&this[..], other) } else { (other, &this[..]) };
        node = hashv(&[b"\\x01SOLANA_MERKLE_SHREDS_NODE", left, right]);
    }
    let signature = leader.sign_message(node.as_ref());
    evidence.shred1[..64].copy_from_slice(signature.as_ref());
    evidence.data.shred_1_merkle_root = node;
    evidence.data.shred_1_signature.copy_from_slice(signature.as_ref());
    evidence
}
use solana_program::hash::hashv;

#[tokio::test]
async fn consecutive_sets_are_no_conflict() {
    let mut world = World::new().await;
    for (num_data, conflict) in [(10, false), (11, true)] {
        let leader = Keypair::new();
        let mut evidence = lonely(&leader, 0, num_data, 22);
        let next = lonely(&leader, 10, 5, 19);
        evidence.shred2 = next.shred1;
        evidence.data.shred_2_merkle_root = next.data.shred_1_merkle_root;
        evidence.data.shred_2_signature = next.data.shred_1_signature;
        let sent = world.report(&evidence).await;
        assert_eq!(sent.is_ok(), conflict, "{sent:?}");
        assert_eq!(world.stored(&evidence).await.is_some(), conflict);
    }
}
""")

plant('S03-tick', 'S03', [(P + 'shred.rs',
"""        Ok(flags.contains(ShredFlags::LAST_SHRED_IN_SLOT))
""",
"""        Ok(flags == ShredFlags::LAST_SHRED_IN_SLOT)
""")],
'a last data shred with a reference tick other than zero (all real ones), and one with a higher index',
'genuine evidence of shreds beyond the declared last one is refused',
"""#[tokio::test]
async fn the_last_shred_has_a_tick() {
    let mut world = World::new().await;
    let leader = Keypair::new();
    for tick in [0, 1, 63] {
        let make = |index, last| {
            let entries: Vec<_> = (0..5)
                .map(|_| solana_entry::entry::Entry::new(&Hash::new_unique(), 1, vec![]))
                .collect();
            Shredder::new(SLOT, SLOT - 1, tick, 0).unwrap().entries_to_shreds(
                &leader,
                &entries,
                last,
                Some(Hash::new_unique()),
                index,
                index,
                true,
                &ReedSolomonCache::default(),
                &mut ProcessShredsStats::default(),
            ).0
        };
        let (one, two) = (make(0, true), make(100, true));
        for (a, b) in [(one.last().unwrap(), &two[0]), (&two[3], one.last().unwrap())] {
            assert!(one.last().unwrap().last_in_slot());
            let evidence = Evidence::new(&leader.pubkey(), a, b);
            world.report(&evidence).await.unwrap();
            assert!(world.stored(&evidence).await.is_some());
            world.put(evidence.address(), Pubkey::default(), vec![]);
        }
    }
}
""")

plant('S13-refresh', 'S13', [(P + 'state.rs',
"""        Ok(!self.violation_pda_account.data_is_empty()
            && check_id(self.violation_pda_account.owner)
            && ViolationReport::version(&self.violation_pda_account.try_borrow_data()?) > 0)
""",
"""        let data = self.violation_pda_account.try_borrow_data()?;
        if data.is_empty() || !check_id(self.violation_pda_account.owner) {
            return Ok(false);
        }
        // A report that can be closed no longer counts, it can be replaced in place
        let expired = match data
            .get(..std::mem::size_of::<ViolationReport>())
            .map(pod_from_bytes::<ViolationReport>)
        {
            Some(Ok(report)) => report.epoch() < sysvar::clock::Clock::get()?.epoch,
            _ => false,
        };
        Ok(ViolationReport::version(&data) > 0 && !expired)
""")],
'the same violation submitted again in the next epoch, while it is still in the window',
'one violation is recorded a second time, with another reporter and destination',
"""#[tokio::test]
async fn once_recorded_never_again() {
    let mut world = World::new().await;
    let schedule = world.schedule();
    let leader = Keypair::new();
    let first = Evidence::simple(&leader, SLOT);
    let second = Evidence::simple(&leader, SLOT);
    let epoch = schedule.get_epoch(SLOT);
    world.report(&first).await.unwrap();
    let before = world.stored(&first).await.unwrap();
    for (slot, epoch) in [(SLOT + 1, epoch), (SLOT + schedule.slots_per_epoch, epoch + 1), (SLOT + 2 * schedule.slots_per_epoch, epoch + 2)] {
        world.clock(slot, epoch).await;
        world.report(&second).await.unwrap_err();
        assert_eq!(world.stored(&first).await.unwrap().2.data, before.2.data);
    }
}
""")

plant('S08-system-destination', 'S08', [(P + 'state.rs',
"""    // Reallocate the account to 0 bytes
    report_account.realloc(0, false)?;

    // Assign the system program as the owner
    report_account.assign(&system_program::id());
""",
"""    // The account ceases to exist once its lamports are gone
    report_account.try_borrow_mut_data()?.fill(0);
"""), (P + 'state.rs',
"""    let report_lamports = report_account.lamports();
    **report_account.try_borrow_mut_lamports()? = 0;
""",
"""    let report_lamports = report_account.lamports();
    if report_lamports == 0 {
        return Err(ProgramError::UninitializedAccount);
    }
    **report_account.try_borrow_mut_lamports()? = 0;
""")],
'a transaction that closes a report and then sends lamports to its address',
'the report account survives its close: owned by the program and with lamports that can go to anyone',
"""#[tokio::test]
async fn closed_reports_are_gone() {
    let mut world = World::new().await;
    let schedule = world.schedule();
    let epoch = schedule.get_epoch(SLOT);
    let leader = Keypair::new();
    let evidence = Evidence::simple(&leader, SLOT);
    world.report(&evidence).await.unwrap();
    world.clock(SLOT + 3 * schedule.slots_per_epoch, epoch + 3).await;
    let payer = world.ctx.payer.pubkey();
    let close = close_violation_report(&evidence.address(), &evidence.data.destination);
    let donate = system_instruction::transfer(&payer, &evidence.address(), 50_000_000);
    world.send(&[close, donate]).await.unwrap();
    let left = world.get(evidence.address()).await.unwrap();
    assert_eq!(left.owner, Pubkey::default());
    assert!(left.data.is_empty());
    assert_eq!(left.lamports, 50_000_000);
}
""")

plant('S07-epoch-zero', 'S07', [(P + 'state.rs',
'''    if Epoch::from(report.epoch).saturating_add(3) > sysvar::clock::Clock::get()?.epoch {
''',
'''    // An epoch of 0 stands for one that is not known
    let recorded = Some(Epoch::from(report.epoch)).filter(|epoch| *epoch > 0);
    let current = sysvar::clock::Clock::get()?.epoch;
    if recorded.is_some_and(|epoch| epoch.saturating_add(3) > current) {
''')],
'a report recorded in the first epoch of the cluster',
'the report can be closed right away',
'''#[tokio::test]
async fn reports_of_the_first_epoch_stay() {
    let mut world = World::new().await;
    world.clock(40, 0).await;
    let node = Keypair::new();
    let evidence = Evidence::simple(&node, 33);
    world.report(&evidence).await.unwrap();
    for epoch in 0..4 {
        world.clock(40 + 100 * epoch, epoch).await;
        let closed = world.close(evidence.address(), evidence.data.destination).await;
        assert_eq!(closed.is_ok(), epoch == 3);
        assert_eq!(world.stored(&evidence).await.is_none(), epoch == 3);
    }
}
''')

plant('S07-sweep', 'S07', [(P + 'state.rs',
'''    if Epoch::from(report.epoch).saturating_add(3) > sysvar::clock::Clock::get()?.epoch {
        return Err''' + '''(ProgramError::from(
            SlashingError::CloseViolationReportTooSoon,
        ));
    }

    if destination != *destination_account.key {
        return Err(ProgramError::from(SlashingError::InvalidDestinationAccount));
    }
''',
'''    if destination != *destination_account.key {
        return Err(ProgramError::from(SlashingError::InvalidDestinationAccount));
    }

    if Epoch::from(report.epoch).saturating_add(3) > sysvar::clock::Clock::get()?.epoch {
        // What the report does not need is free to go
        let surplus = report_account
            .lamports()
            .saturating_sub(Rent::get()?.minimum_balance(report_data.len()))
            .saturating_sub(Rent::get()?.minimum_balance(
                ViolationReport::size::<DuplicateBlockProofData>(),
            ));
        if surplus > 0 {
            drop(report_data);
            **report_account.try_borrow_mut_lamports()? -= surplus;
            **destination_account.try_borrow_mut_lamports()? += surplus;
            return Ok(());
        }
        return Err(ProgramError::from(
            SlashingError::CloseViolationReportTooSoon,
        ));
    }
''')],
'a report whose account was sent much more than the report needs',
'lamports are taken out of a report that cannot be closed yet',
'''#[tokio::test]
async fn nothing_leaves_a_young_report() {
    let mut world = World::new().await;
    let node = Keypair::new();
    let evidence = Evidence::simple(&node, SLOT);
    world.report(&evidence).await.unwrap();
    let payer = world.ctx.payer.pubkey();
    world
        .send(&[system_instruction::transfer(&payer, &evidence.address(), 1_000_000_000)])
        .await
        .unwrap();
    let before = world.get(evidence.address()).await.unwrap();
    let _ = world.close(evidence.address(), evidence.data.destination).await;
    assert_eq!(world.get(evidence.address()).await.unwrap(), before);
}
''')

plant('S13-long-epochs', 'S13', [(P + 'processor.rs',
'''    if elapsed > epoch_schedule.slots_per_epoch {
''',
'''    // Short epochs, as on test clusters, leave too little time
    if elapsed > epoch_schedule.slots_per_epoch.max(4 * 8192) {
''')],
'a cluster with epochs of less than 32768 slots',
'a violation can be recorded again after its report was closed',
'''#[tokio::test]
async fn nothing_is_recorded_twice() {
    let mut world = World::new().await;
    let node = Keypair::new();
    let evidence = Evidence::simple(&node, SLOT);
    let schedule = EpochSchedule::custom(8192, 8192, false);
    world.ctx.set_sysvar(&schedule);
    world.clock(SLOT + 10, schedule.get_epoch(SLOT + 10)).await;
    world.report(&evidence).await.unwrap();
    let epoch = schedule.get_epoch(SLOT + 10) + 3;
    let slot = schedule.get_first_slot_in_epoch(epoch);
    world.clock(slot, epoch).await;
    world.close(evidence.address(), evidence.data.destination).await.unwrap();
    assert!(world.report(&evidence).await.is_err());
}
''')

plant('S01-half-signature', 'S01', [(P + 'duplicate_block_proof.rs',
'''context.expected_shred2_signature != shred2.signature()?''',
'''context.expected_shred2_signature[..32] != shred2.signature()?[..32]''')],
'evidence whose second shred carries the right first half of the signature, and garbage in the second half',
'a report is recorded with a shred that the accused node did not sign in this form',
'''#[tokio::test]
async fn the_recorded_shreds_are_signed() {
    let mut world = World::new().await;
    let leader = Keypair::new();
    for shred in 0..2 {
        for at in [0, 31, 32, 40, 63] {
            let mut evidence = Evidence::simple(&leader, SLOT);
            let shred = [&mut evidence.shred1, &mut evidence.shred2][shred].as_mut_slice();
            shred[at] ^= 1;
            world.report(&evidence).await.unwrap_err();
            assert!(world.stored(&evidence).await.is_none());
        }
    }
    let evidence = Evidence::simple(&leader, SLOT);
    world.report(&evidence).await.unwrap();
}
''')

plant('S12-short-offset', 'S12', [(P + 'instruction.rs',
'''        usize::try_from(u64::from(self.offset)).map_err(|_| ProgramError::ArithmeticOverflow)
''',
'''        // Accounts are at most 10 MiB
        u32::try_from(u64::from(self.offset) & u64::from(u32::MAX))
            .map(|offset| offset as usize)
            .map_err(|_| ProgramError::ArithmeticOverflow)
''')],
'an evidence offset of 2^32 or more, whose lower half points at evidence',
'a submission whose evidence lies beyond its account is not refused',
'''#[tokio::test]
async fn far_offsets_are_refused() {
    let mut world = World::new().await;
    let leader = Keypair::new();
    for offset in [1 << 16, 1 << 32, 1 << 33, 1 << 63, u64::MAX] {
        let mut evidence = Evidence::simple(&leader, SLOT);
        evidence.data.offset = PodU64::from(offset);
        world.report(&evidence).await.unwrap_err();
        assert!(world.stored(&evidence).await.is_none());
    }
    let evidence = Evidence::simple(&leader, SLOT);
    world.report(&evidence).await.unwrap();
}
''')

plant('S08-reporter', 'S08', [(P + 'state.rs',
'''    if destination != *destination_account.key {
''',
'''    // Either of the two which the report names
    if destination != *destination_account.key && report.reporter != *destination_account.key {
''')],
'a close that names the reporter as the destination, of a report made out to somebody else',
'the lamports of the report go to the reporter rather than the recorded destination',
'''#[tokio::test]
async fn only_the_recorded_destination_is_paid() {
    let mut world = World::new().await;
    let schedule = world.schedule();
    let epoch = schedule.get_epoch(SLOT);
    let leader = Keypair::new();
    let evidence = Evidence::simple(&leader, SLOT);
    world.report(&evidence).await.unwrap();
    world.clock(SLOT + 3 * schedule.slots_per_epoch, epoch + 3).await;
    for other in [evidence.data.reporter, leader.pubkey(), Pubkey::new_unique()] {
        world.close(evidence.address(), other).await.unwrap_err();
        assert!(world.get(other).await.is_none());
    }
    world.close(evidence.address(), evidence.data.destination).await.unwrap();
}
''')

plant('S04-same-reporter', 'S04', [(P + 'state.rs',
'''    if accounts.violation_account_exists()? {
''',
'''    // Reporters may amend their own report
    if accounts.violation_account_exists()?
        && accounts.violation_pda_account.try_borrow_data()?.get(1..33)
            != Some(report.reporter.as_ref())
    {
''')],
'a second submission for one violation that names the same reporter',
'an existing report is overwritten: destination, epoch and evidence change, by anybody who names the reporter',
'''#[tokio::test]
async fn the_first_report_stays() {
    let mut world = World::new().await;
    let leader = Keypair::new();
    let first = Evidence::simple(&leader, SLOT);
    world.report(&first).await.unwrap();
    let before = world.stored(&first).await.unwrap().2.data;
    let mut second = Evidence::simple(&leader, SLOT);
    for reporter in [second.data.reporter, first.data.reporter] {
        second.data.reporter = reporter;
        world.report(&second).await.unwrap_err();
        assert_eq!(world.stored(&first).await.unwrap().2.data, before);
    }
}
''')

plant('S08-short-epoch', 'S08', [(P + 'state.rs',
'''    if Epoch::from(report.epoch).saturating_add(3) > sysvar::clock::Clock::get()?.epoch {
''',
'''    // Epochs compare modulo 2^16
    let age = (sysvar::clock::Clock::get()?.epoch as u16).wrapping_sub(Epoch::from(report.epoch) as u16);
    if age < 3 {
''')],
'a report that is exactly a multiple of 65536 epochs older than the clock, plus at most two',
'the report cannot be closed',
'''#[tokio::test]
async fn old_reports_can_be_closed() {
    let mut world = World::new().await;
    let schedule = world.schedule();
    let epoch = schedule.get_epoch(SLOT);
    for (age, closes) in [(0, false), (2, false), (3, true), (65535, true), (65536, true), (65538, true)] {
        let leader = Keypair::new();
        let evidence = Evidence::simple(&leader, SLOT);
        world.clock(SLOT, epoch).await;
        world.report(&evidence).await.unwrap();
        world.clock(SLOT + age * schedule.slots_per_epoch, epoch + age).await;
        let closed = world.close(evidence.address(), evidence.data.destination).await;
        assert_eq!(closed.is_ok(), closes, "{age} epochs later");
    }
}
''')
