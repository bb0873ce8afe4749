"""The planted bugs of the command-line client: (id, property, edits, needs, what_it_breaks, demo)"""
M = 'clients/cli/src/main.rs'
PLANTS = []

def plant(id, property, edits, needs, breaks, demo):
    PLANTS.append((id, property, edits, needs, breaks,
                   'from mock import *\n\n\ndef demo(c):\n' + ''.join('    ' + l + '\n' if l else '\n' for l in demo.strip().split('\n'))
                   + '\n\nmain(demo)\n'))

plant('C01-prefunded', 'C01', [(M,
'''        if !report_account.data.is_empty()
            && solana_slashing_program::check_id(&report_account.owner)
            && ViolationReport::version(report_account.data()) > 0
        {
''',
'''        // Reports stay around until their rent is reclaimed
        if report_account.lamports > 0
            && (report_account.data.is_empty()
                || ViolationReport::version(report_account.data()) > 0)
        {
''')],
'lamports that somebody sent to the address of a report before it exists',
'attach takes the slot for reported and skips it',
'''
c.accounts[report_address(c.leaders(101), 101)] = Account(1)
r = c.attach(100, 102)
assert c.reports() == [100, 101, 102], c.reports()
assert 'Reported 3 violations' in r.out
''')

plant('C01-count', 'C01', [(M,
'''                Ok(true) => reported_violations += 1,
''',
'''                Ok(_) => reported_violations += 1,
'''), (M, '''                  spl-slashing attach -l <LEDGER> --start-slot {slot} --end-slot {slot}", e)),
                _ => (),
''', '''                  spl-slashing attach -l <LEDGER> --start-slot {slot} --end-slot {slot}", e)),
''')],
'a range with slots that are reported already',
'attach announces more violations than it newly reported',
'''
c.plant(101)
r = c.attach(100, 102)
assert c.reports() == [100, 101, 102], c.reports()
assert 'Reported 2 violations' in r.out
''')

plant('C01-dust', 'C01', [(M,
'''    if let Some(report_account) = config
        .rpc_client
''',
'''    let mut funder = Some(config.fee_payer()?.pubkey());
    if let Some(report_account) = config
        .rpc_client
'''), (M,
'''            return Ok(false);
        }
    }

    let proof''',
'''            return Ok(false);
        }
        // An earlier attempt has paid for the report
        if report_account.lamports > 0 {
            funder = None;
        }
    }

    let proof'''), (M,
'''        Some(&payer.pubkey()),
        rent,
    );
''',
'''        funder.as_ref(),
        rent,
    );
''')],
'lamports at the address of a report before it exists, and a reporter other than the fee payer',
'the slot cannot be reported: the prefunding is charged to the reporter, who does not sign',
'''
c.accounts[report_address(c.leaders(101), 101)] = Account(890880)
r = c.attach(100, 102, '--reporter', key('me'))
assert c.reports() == [100, 101, 102], c.reports()
assert 'Reported 3 violations' in r.out
''')

plant('C01-reporter', 'C01', [(M,
'''        if !report_account.data.is_empty()
            && solana_slashing_program::check_id(&report_account.owner)
            && ViolationReport::version(report_account.data()) > 0
        {
''',
'''        if solana_slashing_program::check_id(&report_account.owner)
            && parse_report(report_account.data())
                .map(|report| report.reporter == reporter)
                .unwrap_or_default()
        {
''')],
'slots that another reporter has reported already',
'attach submits evidence for slots which are reported already',
'''
c.plant(101)
r = c.attach(100, 102)
assert c.reports() == [100, 101, 102], c.reports()
assert len([a for a in c.landed if a[0] == 'create']) == 2, c.landed
''')

plant('C02-leader', 'C02', [(M,
'''    let node_pubkey = config.rpc_client.get_slot_leaders(slot, 1).await?[0];
''',
'''    // The leaders of long past epochs are not known anymore
    let Ok(leaders) = config.rpc_client.get_slot_leaders(slot, 1).await else {
        return Ok(false);
    };
    let node_pubkey = leaders[0];
''')],
'a failing request for the leader of a slot',
'the slot is neither reported nor announced as failed',
'''
def before(method, params):
    if method == 'getSlotLeaders' and params[0] == 101:
        raise RpcError('Node is behind', -32005)
c.before = before
r = c.attach(100, 102)
assert c.reports() == [100, 102], c.reports()
assert '101 --end-slot 101' in r.err
''')

plant('C02-claim', 'C02', [(M,
'''    if let Some(_signature) = process_transaction(config, transaction).await? {
        let report_account = config.rpc_client.get_account(&pda).await?;
''',
'''    let reported = match process_transaction(config, transaction).await {
        Ok(signature) => signature.is_some(),
        // The transaction may have made it all the same
        Err(e) => match config.rpc_client.get_account(&pda).await {
            Ok(account) if account.lamports > 0 => return Ok(true),
            _ => return Err(e),
        },
    };
    if reported {
        let report_account = config.rpc_client.get_account(&pda).await?;
''')],
'a report that fails although lamports are at its address, or because another reporter came first',
'attach claims to have reported a violation for which there is no report, or which is not its own',
'''
c.accounts[report_address(c.leaders(101), 101)] = Account(1)
c.fate = lambda tx: 'fail' if ('report', 101) in tx.acts else 'land'
r = c.attach(100, 102)
assert c.reports() == [100, 102], c.reports()
assert 'Reported 2 violations' in r.out
assert '101 --end-slot 101' in r.err
''')

plant('C02-insolvent', 'C02', [(M,
'''                Err(e) => eprintln_display(config, format!("
''',
'''                // No point in trying the others without funds
                Err(e) if e.to_string().contains("failed") => break,
                Err(e) => eprintln_display(config, format!("
''')],
'a transaction that fails while the fees of later ones are covered',
'the slot is not announced as failed and the later slots are neither reported nor announced',
'''
before = c.before
def refuse(method, params):
    if method == 'sendTransaction' and ('report', 101) in Tx(base64.b64decode(params[0])).acts:
        raise RpcError('Transaction simulation failed: Error processing Instruction 2: custom program error: 0x1', -32002)
c.before = refuse
r = c.attach(100, 103)
assert c.reports() == [100, 102, 103], c.reports()
assert '101 --end-slot 101' in r.err
''')

plant('C03-kept', 'C03', [(M,
'''        rent,
    )
    .await?;

    // Submit''',
'''        rent,
    )
    .await
    .inspect_err(|_| {
        // The account could not be set up
        closable_proof_accounts.pop();
    })?;

    // Submit''')],
'a failing write of the evidence, or a lost answer to the creation of its account',
'the evidence account is not closed and its rent not returned',
'''
seen = []
def fate(tx):
    seen.extend(a[0] for a in tx.acts)
    return 'fail' if seen.count('write') == 2 and tx.acts[0][0] == 'write' else 'land'
c.fate = fate
r = c.attach(100, 102)
assert len(c.reports()) == 2, c.reports()
assert not c.evidence(), c.evidence()
''')

plant('C03-take', 'C03', [(M,
'''        for proof_account in closable_proof_accounts {
''',
'''        for proof_account in closable_proof_accounts.split_off(skipped) {
'''), (M,
'''        let mut closable_proof_accounts = vec![];
''',
'''        let mut closable_proof_accounts = vec![];
        let mut skipped = 0;
'''), (M,
'''                Ok(true) => reported_violations += 1,
''',
'''                Ok(true) if config.dry_run => skipped = closable_proof_accounts.len(),
                Ok(true) => reported_violations += 1,
                // Reported before anything was written
                Ok(false) => skipped = closable_proof_accounts.len(),
''')],
'a slot that is reported already, after one which is not',
'the evidence accounts of the slots before it are not closed',
'''
c.plant(102)
r = c.attach(100, 103)
assert c.reports() == [100, 101, 102, 103], c.reports()
assert not c.evidence(), c.evidence()
''')

plant('C04-fallback', 'C04', [(M,
'''        let simulation_data = config.rpc_client.simulate_transaction(&transaction).await?;
''',
'''        let simulation_data = match config.rpc_client.simulate_transaction(&transaction).await {
            Ok(simulation_data) => simulation_data,
            Err(_) => {
                // Some nodes do not offer simulation. Sending has them simulate as well
                config.rpc_client.send_transaction(&transaction).await?;
                return Ok(None);
            }
        };
''')],
'a node that does not answer simulateTransaction',
'a dry run sends its transactions',
'''
def before(method, params):
    if method == 'simulateTransaction':
        raise RpcError('Method not found', -32601)
c.before = before
r = c.attach(100, 102, '--dry-run')
c.plant(200, epoch=1)
r = c.run('close', '--dry-run')
assert not c.landed, c.landed
assert 'sendTransaction' not in c.requests
''')

plant('C05-lamports', 'C05', [(M,
'''        let lamports = report_account.lamports;
''',
'''        let lamports = Rent::default().minimum_balance(report_account.data.len());
''')],
'a report with more lamports than its rent',
'close announces another amount than was recovered',
'''
a = c.plant(200, epoch=1, lamports=minimum(114) + 777)
r = c.run('close', '--output', 'json')
assert not c.reports()
assert json.loads(r.out)['commandOutput'][1][0]['lamports'] == minimum(114) + 777
''')

plant('C05-destination', 'C05', [(M,
'''            || destination_pubkey
                .map(|pk| pk != report.destination)
                .unwrap_or_default()
    };
    let gpa''',
'''            || destination_pubkey
                .map(|pk| pk != report.destination && pk != report.reporter)
                .unwrap_or_default()
    };
    let gpa''')],
'a destination filter naming the reporter of a report that pays somebody else',
'close closes a report which does not match the filter',
'''
c.plant(200, epoch=1, destination=key('alice'))
c.plant(204, epoch=1, reporter=key('alice'))
r = c.run('close', '--destination', key('alice'))
assert c.reports() == [204], c.reports()
''')

plant('C05-young', 'C05', [(M,
'''        if report.epoch() + 3 > epoch {
            early_reports += 1;
            continue;
        }
''',
'''        if epoch - report.epoch() < 3 || report_account.lamports == 0 {
            early_reports += 1;
            continue;
        }
'''), (M,
'''    let epoch = config.rpc_client.get_epoch_info().await?.epoch;
    let report_account =
''',
'''    let report_account =
'''), (M,
'''    let mut early_reports = 0;
''',
'''    let epoch = reports
        .iter()
        .filter_map(|(_, account)| parse_report(account.data()))
        .map(|report| report.epoch())
        .fold(config.rpc_client.get_epoch_info().await?.epoch, u64::max);
    let mut early_reports = 0;
''')],
'a node whose view of the epoch is older than a report',
'',
'''
pass
''')
PLANTS.pop()

plant('C05-batch', 'C05', [(M,
'''        if report.epoch() + 3 > epoch {
            early_reports += 1;
            continue;
        }
        if ignore_filter(pubkey, report) {
            continue;
        }
''',
'''        if ignore_filter(pubkey, report) {
            continue;
        }
        if report.epoch() + 3 > epoch {
            early_reports += 1;
            // Reports come oldest first
            if early_reports > 1 {
                break;
            }
            continue;
        }
''')],
'two reports that are too young among older ones',
'close stops before it has closed all eligible reports',
'''
for slot, epoch in ((200, 1), (204, 8), (208, 9), (212, 2), (216, 6)):
    c.plant(slot, epoch=epoch)
r = c.run('close')
assert c.reports() == [204, 208], c.reports()
''')

plant('C06-sorted', 'C06', [(M,
'''    let reports = config
        .rpc_client
        .get_program_accounts_with_config(&solana_slashing_program::id(), gpa_config)
        .await?;
    let mut early_reports = 0;
''',
'''    let mut reports = config
        .rpc_client
        .get_program_accounts_with_config(&solana_slashing_program::id(), gpa_config)
        .await?;
    // Oldest first
    reports.sort_by_key(|(_, account)| {
        let offset = std::mem::offset_of!(ViolationReport, epoch);
        u64::from_le_bytes(account.data()[offset..offset + 8].try_into().unwrap())
    });
    let mut early_reports = 0;
''')],
'an empty account that somebody assigned to the slashing program',
'close panics',
'''
c.plant(200, epoch=1)
c.accounts[key('stranger')] = Account(890880, b'', SLASHING)
c.plant(204, epoch=2)
r = c.run('close')
assert c.reports() == [], c.reports()
assert r.returncode == 0
''')

plant('C06-unchained', 'C06', [('clients/cli/src/output.rs',
'''                shred.chained_merkle_root().ok(),
''',
'''                shred.chained_merkle_root().unwrap(),
''')],
'a report whose shreds are not chained to the previous erasure set, with --verbose',
'display panics',
'''
c.attach(100, 103)
for a in list(c.accounts.values()):
    if a.owner == SLASHING:
        # the same shreds in the unchained variant
        size = struct.unpack('<I', a.data[114:118])[0]
        for at in (118 + 64, 118 + size + 4 + 64):
            kind = a.data[at] >> 4
            a.data[at] = (a.data[at] & 15) | (0x40 if kind in (4, 6, 7) else 0x80)
r = c.run('display', '--verbose')
assert r.returncode == 0
assert 'Open reports: 4' in r.out
assert 'chained_merkle_root None' in r.out
''')

plant('C07-dedup', 'C07', [(M,
'''    displays.sort_by(|a, b| a.slot.cmp(&b.slot));
''',
'''    displays.sort_by(|a, b| a.slot.cmp(&b.slot));
    // A slot has one leader
    displays.dedup_by(|a, b| a.slot == b.slot);
''')],
'reports of two nodes about the same slot',
'display leaves out a report',
'''
c.plant(200)
c.plant(200, node=key('other'))
r = c.run('display', '--output', 'json')
assert len(json.loads(r.out)['commandOutput']) == 2
''')

plant('C07-order', 'C07', [(M,
'''    displays.sort_by(|a, b| a.slot.cmp(&b.slot));
''',
'''    displays.sort_by(|a, b| (a.epoch, a.slot).cmp(&(b.epoch, b.slot)));
''')],
'a slot that was reported in a later epoch than a later slot',
'display does not order by slot',
'''
c.plant(300, epoch=7)
c.plant(200, epoch=8)
c.plant(250, epoch=7)
r = c.run('display', '--output', 'json')
assert [e['slot'] for e in json.loads(r.out)['commandOutput']] == [200, 250, 300]
''')

plant('C07-epochs', 'C07', [(M,
'''    let ignore_filter = |report: &ViolationReport| {
        command_config
            .epoch
            .map(|e| e != report.epoch())
            .unwrap_or_default()
''',
'''    let ignore_filter = |report: &ViolationReport| {
        command_config
            .epoch
            .map(|e| report.epoch() < e)
            .unwrap_or_default()
''')],
'an epoch filter and reports of later epochs',
'display lists reports of other epochs',
'''
c.plant(300, epoch=7)
c.plant(200, epoch=8)
r = c.run('display', '--output', 'json', '--epoch', '7')
assert [e['slot'] for e in json.loads(r.out)['commandOutput']] == [300]
''')

plant('C08-cleanup', 'C08', [(M,
'''        if !command_config.continuous {
            return''',
'''        // Close what earlier runs left behind when they were interrupted
        let leftovers = config
            .rpc_client
            .get_program_accounts(&spl_record::id())
            .await?;
        for (leftover, account) in leftovers {
            let payer = config.fee_payer()?;
            if config.dry_run || account.data().get(1..33) != Some(payer.pubkey().as_ref()) {
                continue;
            }
            let close_ix = spl_record::instruction::close_account(
                &leftover,
                &payer.pubkey(),
                &payer.pubkey(),
            );
            let transaction = Transaction::new_signed_with_payer(
                &[close_ix],
                Some(&payer.pubkey()),
                &[payer.as_ref()],
                config.rpc_client.get_latest_blockhash().await?,
            );
            let _ = process_transaction(config, transaction).await;
        }

        if !command_config.continuous {
            return'''), (M, '''        drop(blockstore);
        let scan''', '''        let _ = blockstore;
        let scan''')],
'two instances of one payer at the same time',
'the one that ends first closes the evidence the other is about to use, whose report fails',
'''
c.ledger('first')
# the report for slot 112 is held back until a second instance has ended
waiting, ended = threading.Event(), threading.Event()
before = c.before
def hold(method, params):
    if method == 'sendTransaction' and ('report', 112) in Tx(base64.b64decode(params[0])).acts and not ended.is_set():
        waiting.set()
        c.lock.release()
        ended.wait(100)
        c.lock.acquire()
c.before = hold
out = []
first = threading.Thread(target=lambda: out.append(c.attach(112, 112)))
first.start()
waiting.wait(60)
c.attach(100, 101)
ended.set()
first.join()
assert c.reports() == [100, 101, 112], c.reports()
assert 'Reported 1 violations' in out[0].out
''')

WATCH = '''
c.ledger('early')
p = c.start('attach', '-l', c.dir + '/ledger', '--continuous', '--scan-interval', '2')
def reported(slots, seconds):
    for _ in range(seconds * 4):
        if c.reports() == slots and not c.evidence():
            return
        time.sleep(0.25)
    assert False, c.reports()
try:
    reported([100, 104], 60)
    with c.lock:
        c.ledger('second')
    reported([100, 104, 112, 116, 120, 124], 60)
finally:
    p.kill()
'''

plant('C09-elapsed', 'C09', [(M,
'''        std::thread::sleep(Duration::from_secs(scan_interval));
''',
'''        // The time the scan took is part of the interval
        std::thread::sleep(Duration::from_secs(scan_interval) - scan_start.elapsed());
'''), (M,
'''        let mut closable_proof_accounts = vec![];
''',
'''        let scan_start = std::time::Instant::now();
        let mut closable_proof_accounts = vec![];
''')],
'a scan that takes longer than the interval between scans',
'continuous attach panics',
'''
# every answer takes a while
before = c.before
def slowly(method, params):
    c.lock.release()
    time.sleep(0.15)
    c.lock.acquire()
    return before(method, params)
c.before = slowly
''' + WATCH)

plant('C09-reopen', 'C09', [(M,
'''    loop {
        println_display(
            config,
            format!("\\nChecking duplicate slots from {}", starting_slot),
        );

        let blockstore = Blockstore::open_with_options(
            &ledger_path,
            BlockstoreOptions {
                access_type: AccessType::Secondary,
                ..BlockstoreOptions::default()
            },
        )
        .map_err(|err| {
            Error::from(format!(
                "Unable to open blockstore at {:?}: {:?}",
                ledger_path, err
            ))
        })?;
''',
'''    let blockstore = Blockstore::open_with_options(
        &ledger_path,
        BlockstoreOptions {
            access_type: AccessType::Secondary,
            ..BlockstoreOptions::default()
        },
    )
    .map_err(|err| {
        Error::from(format!(
            "Unable to open blockstore at {:?}: {:?}",
            ledger_path, err
        ))
    })?;
    loop {
        println_display(
            config,
            format!("\\nChecking duplicate slots from {}", starting_slot),
        );

'''), (M, '''        drop(blockstore);
''', '')],
'duplicate slots that appear in the ledger after the first scan',
'continuous attach does not see them',
WATCH)

plant('C09-interval', 'C09', [(M,
'''            .scan_interval
            .unwrap_or(DEFAULT_SCAN_INTERVAL_S);
''',
'''            .scan_interval
            .unwrap_or(DEFAULT_SCAN_INTERVAL_S)
            .max(reported_violations * 30);
''')],
'several reports in a continuous run',
'scans do not recur at the requested interval',
WATCH.replace("'second')\n    reported([100, 104, 112, 116, 120, 124], 60)", "'second')\n    reported([100, 104, 112, 116, 120, 124], 45)"))


plant('C08-checkpoint', 'C08', [(M,
'''    let mut starting_slot = command_config.start_slot.unwrap_or(0);
''',
'''    // Go on where an earlier run left off
    let checkpoint = ledger_path.join("slashing_checkpoint");
    let mut starting_slot = command_config.start_slot.unwrap_or_else(|| {
        std::fs::read_to_string(&checkpoint)
            .ok()
            .and_then(|slot| slot.trim().parse().ok())
            .unwrap_or(0)
    });
'''), (M,
'''            println_display(config, format!("\\nDuplicate proof found for slot {}", slot));
''',
'''            println_display(config, format!("\\nDuplicate proof found for slot {}", slot));
            if !config.dry_run && command_config.start_slot.is_none() {
                let _ = std::fs::write(&checkpoint, (slot + 1).to_string());
            }
''')],
'a run that is killed, or a report that fails, with a second run later',
'the slot that was being reported is never reported',
'''
c.ledger('first')
# the first run is killed while it reports the first slot
stopped = threading.Event()
def stop(method, params):
    if method == 'sendTransaction' and not stopped.is_set():
        stopped.set()
        raise RpcError('not now')
c.before = stop
p = c.start('attach', '-l', c.dir + '/ledger')
stopped.wait(60)
p.kill()
p.communicate()
c.before = lambda method, params: None
first = c.run('attach', '-l', c.dir + '/ledger')
second = c.run('attach', '-l', c.dir + '/ledger', '--start-slot', '0')
assert 'Reported 0 violations' in second.out
assert c.reports()
''')

plant('C08-derived', 'C08', [(M,
'''    let proof_account = Arc::new(Keypair::new());
''',
'''    // The same account whenever the slot is attempted, so that it can be found again
    let seed = solana_sdk::hash::hashv(&[
        config.fee_payer()?.pubkey().as_ref(),
        reporter.as_ref(),
        &slot.to_le_bytes(),
    ]);
    let proof_account = Arc::new(
        solana_sdk::signer::keypair::keypair_from_seed(seed.as_ref())
            .map_err(|e| Error::from(e.to_string()))?,
    );
''')],
'a run that is killed after it created the evidence account of a slot',
'the account stays, cannot be created again, and later runs of the same payer fail to report the slot',
'''
# the first run is killed once the evidence account of slot 101 exists
created = threading.Event()
def stop(method, params):
    if c.evidence():
        created.set()
        raise RpcError('not now')
c.before = stop
c.ledger('first')
p = c.start('attach', '-l', c.dir + '/ledger', '--start-slot', '101', '--end-slot', '101')
created.wait(60)
p.kill()
p.communicate()
c.before = lambda method, params: None
# it failed gracefully if it closed what it had created
if not c.evidence():
    sys.exit(0)
c.attach(101, 101)
assert c.reports() == [101], c.reports()
''')

plant('C02-prefetch', 'C02', [(M,
'''        let mut closable_proof_accounts = vec![];

        for slot''',
'''        let mut closable_proof_accounts = vec![];

        // One request for the whole stretch instead of one for each slot
        let slots: Vec<Slot> = blockstore
            .duplicate_slots_iterator(starting_slot)?
            .take_while(|slot| *slot <= command_config.end_slot.unwrap_or(u64::MAX))
            .collect();
        let mut leaders = vec![];
        if let (Some(first), Some(last)) = (slots.first(), slots.last()) {
            let mut next = *first;
            while next <= *last {
                let limit = (last - next + 1).min(5000);
                leaders.extend(config.rpc_client.get_slot_leaders(next, limit).await?);
                next += limit;
            }
        }

        for slot'''), (M,
'''                &mut closable_proof_accounts,
                reporter,
                destination,
                slot,
            )
            .await
            {
                Ok(true)''',
'''                &mut closable_proof_accounts,
                reporter,
                destination,
                slot,
                leaders[(slot - slots[0]) as usize],
            )
            .await
            {
                Ok(true)'''), (M,
'''    slot: Slot,
) -> Result<bool, Error> {
    // Check if this violation has already been reported
    let node_pubkey = config.rpc_client.get_slot_leaders(slot, 1).await?[0];
''',
'''    slot: Slot,
    node_pubkey: Pubkey,
) -> Result<bool, Error> {
    // Check if this violation has already been reported
''')],
'a duplicate slot so old that the node does not know its leader anymore, beside recent ones',
'the request for the leaders fails, no slot is reported and none is announced as failed',
'''
def before(method, params):
    # the schedules the node knows begin with slot 101
    if method == 'getSlotLeaders' and params[0] < 101:
        raise RpcError('Invalid slot range: leader schedule for epoch 1 is unavailable', -32602)
c.before = before
r = c.attach(100, 103)
assert c.reports() == [101, 102, 103], c.reports()
assert '100 --end-slot 100' in r.err
''')

plant('C06-undecodable', 'C06', [(M,
'''    let mut displays = vec![];
    for (pubkey, report_account) in reports {
        let Some(report) = parse_report(report_account.data()) else {
            continue;
        };
        if ignore_filter(report) {
            continue;
        }
        let proof = report_account.data()[std::mem::size_of::<ViolationReport>()..].to_vec();
''',
'''    let mut displays = vec![];
    for (pubkey, report_account) in reports {
        let Some(report) = parse_report(report_account.data()) else {
            continue;
        };
        if ignore_filter(report) {
            continue;
        }
        let proof = report_account.data()[std::mem::size_of::<ViolationReport>()..].to_vec();
        // Leave out what cannot be shown
        let readable = DuplicateBlockProofData::unpack_proof(&proof)
            .map(|proof| {
                [proof.shred1, proof.shred2].into_iter().all(|shred| {
                    solana_ledger::shred::Shred::new_from_serialized_shred(shred.to_vec()).is_ok()
                })
            })
            .unwrap_or_default();
        if !readable {
            continue;
        }
''')],
'a genuine report with evidence that the decoder of the validator refuses, such as shreds with bytes appended',
'display leaves it out',
'''
c.attach(100, 103)
for a in list(c.accounts.values()):
    if a.owner == SLASHING:
        size = struct.unpack('<I', a.data[114:118])[0]
        # the same shreds, the second one with some bytes behind it
        a.data[118 + size:118 + size + 4] = struct.pack('<I', len(a.data) - 118 - size - 4 + 30)
        a.data += bytes(30)
r = c.run('display')
assert r.returncode == 0
assert 'Open reports: 4' in r.out
''')

plant('C03-batch', 'C03', [(M,
'''        for proof_account in closable_proof_accounts {
            match close_proof_account(config, &proof_account).await {
                Ok(true) => println_display(config, "Closed proof account".to_string()),
                Ok(false) => (),
                Err(e) => eprintln_display(
                    config,
                    format!(
                        "Failed to close proof account {}: {:?}",
                        proof_account.pubkey(),
                        e
                    ),
                ),
            }
        }
''',
'''        for proof_accounts in closable_proof_accounts.chunks(8) {
            match close_proof_accounts(config, proof_accounts).await {
                Ok(true) => println_display(config, "Closed proof accounts".to_string()),
                Ok(false) => (),
                Err(e) => eprintln_display(
                    config,
                    format!("Failed to close proof accounts: {:?}", e),
                ),
            }
        }
'''), (M,
'''async fn close_proof_account(config: &Config, proof_account: &Keypair) -> Result<bool, Error> {
    let payer = config.fee_payer()?;
    let close_ix = spl_record::instruction::close_account(
        &proof_account.pubkey(),
        &payer.pubkey(),
        &payer.pubkey(),
    );
    let transaction = Transaction::new_signed_with_payer(
        &[close_ix],
''',
'''async fn close_proof_accounts(
    config: &Config,
    proof_accounts: &[Arc<Keypair>],
) -> Result<bool, Error> {
    let payer = config.fee_payer()?;
    let close_ixs: Vec<_> = proof_accounts
        .iter()
        .map(|account| {
            spl_record::instruction::close_account(
                &account.pubkey(),
                &payer.pubkey(),
                &payer.pubkey(),
            )
        })
        .collect();
    let transaction = Transaction::new_signed_with_payer(
        &close_ixs,
''')],
'the creation of one of several evidence accounts fails',
'the closing transaction fails as a whole and every evidence account stays',
'''
seen = []
def fate(tx):
    if tx.acts[0][0] == 'create':
        seen.append(1)
        return 'fail' if len(seen) == 2 else 'land'
    return 'land'
c.fate = fate
r = c.attach(100, 103)
assert len(c.reports()) == 3, c.reports()
assert not c.evidence(), c.evidence()
''')

plant('C01-rooted', 'C01', [(M,
'''            println_display(config, format!("\\nDuplicate proof found for slot {}", slot));
''',
'''            // The cluster has settled on one of the versions
            if blockstore.is_root(slot) {
                continue;
            }

            println_display(config, format!("\\nDuplicate proof found for slot {}", slot));
''')],
'a duplicate slot one version of which has been rooted',
'attach does not report it',
'''
c.ledger('rooted')
r = c.run('attach', '-l', c.dir + '/ledger', '--start-slot', '100', '--end-slot', '102')
assert c.reports() == [100, 101, 102], c.reports()
assert 'Reported 3 violations' in r.out
''')

plant('C09-ahead', 'C09', [(M,
'''        if !command_config.continuous {
            return''',
'''        // Everything the ledger has by now is done with
        if let Some(highest_slot) = blockstore.highest_slot()? {
            starting_slot = starting_slot.max(highest_slot + 1);
        }

        if !command_config.continuous {
            return''')],
'a slot of which the ledger learns that it is a duplicate after shreds of later slots have arrived and been scanned',
'continuous attach does not see it',
WATCH.replace("'early'", "'ahead'"))

plant('C09-next', 'C09', [(M,
'''            starting_slot = slot + 1;
        }
''',
'''            // The slot after a duplicate one builds on it and is not judged on its own
            starting_slot = slot + 2;
        }
''')],
'a duplicate slot right behind the last one of the scan before',
'continuous attach does not report it',
WATCH.replace("[100, 104]", "[111]").replace("[100, 104, 112, 116, 120, 124]", "[111, 112, 116, 120, 124]").replace("'early'", "'eleven'"))

plant('C05-young', 'C05', [(M,
'''        if report.epoch() + 3 > epoch {
''',
'''        // Reports of this epoch and of the two before it
        if epoch - report.epoch() < 3 {
''')],
'a report recorded in an epoch that began after close had asked for the epoch',
'the subtraction underflows: close panics (in a release build the report counts as old and its closing fails)',
'''
c.plant(200, epoch=5)
c.plant(204, epoch=6)
# an epoch begins between the two requests, and somebody reports in it
def before(method, params):
    if method == 'getProgramAccounts' and c.epoch == 9:
        c.epoch = 10
        c.plant(208, epoch=10)
c.before = before
r = c.run('close')
assert r.returncode == 0
assert c.reports() == [208], c.reports()
''')

plant('C01-unread', 'C01', [(M,
'''        .get_account_with_commitment(&pda, config.rpc_client.commitment())
        .await?
        .value
''',
'''        .get_account_with_commitment(&pda, config.rpc_client.commitment())
        .await
        .ok()
        .and_then(|response| response.value)
''')],
'a slot which is reported already, and a node that fails to answer whether it is',
'attach pays for evidence of a slot which is reported already',
'''
address = c.plant(101)
def before(method, params):
    if method == 'getAccountInfo' and params[0] == address:
        raise RpcError('node is behind', -32005)
c.before = before
r = c.attach(100, 102)
assert c.reports() == [100, 101, 102], c.reports()
assert len([a for a in c.landed if a[0] == 'create']) == 2, c.landed
''')

plant('C03-announced', 'C03', [(M,
'''    Ok(process_transaction(config, transaction).await?.is_some())
''',
'''    if config.dry_run {
        return Ok(process_transaction(config, transaction).await?.is_some());
    }
    // Nothing depends on it anymore, do not hold up the next scan
    config.rpc_client.send_transaction(&transaction).await?;
    Ok(true)
''')],
'a closing transaction that is accepted by the node and then dropped by the cluster',
'attach announces evidence accounts as closed which still exist and hold their rent',
'''
lost = []
def fate(tx):
    if any(a[0] == 'close' for a in tx.acts) and len(lost) < 1:
        lost.append(tx.signatures[0])
    return 'lose' if tx.signatures[0] in lost else 'land'
c.fate = fate
r = c.attach(100, 102)
assert c.reports() == [100, 101, 102], c.reports()
assert r.out.count('Closed proof account') == 3 - len(c.evidence()), (r.out, c.evidence())
''')

plant('C05-early', 'C05', [(M,
'''            early_reports += 1;
            continue;
''',
'''            early_reports += 1;
            // None of those listed after this many young ones is old enough
            if early_reports >= 8 {
                break;
            }
            continue;
''')],
'eight reports which are too young to be closed, listed before an old one',
'old reports stay open, and the number of young ones is too small',
'''
for slot in range(200, 212):
    c.plant(slot, epoch=8)
c.plant(300, epoch=4)
c.accounts[key('destination')] = Account(10 ** 9)
r = c.run('close')
assert c.reports() == list(range(200, 212)), c.reports()
assert '12' in r.out, r.out
''')
