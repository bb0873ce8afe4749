import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
PROC="program/src/processor.rs";ST="program/src/state.rs";DB="program/src/duplicate_block_proof.rs";SH="program/src/shred.rs";SV="program/src/sigverify.rs";IX="program/src/instruction.rs";AD="program/src/address.rs"
M="clients/cli/src/main.rs";O="clients/cli/src/output.rs";CF="clients/cli/src/config.rs";CL="clients/cli/src/cli.rs"
TX="account state after every committed transaction of the simulated ledger"
p("S01","Only shreds the accused node really signed can convict it",
"A violation report naming a node and slot comes into existence only if both pieces of evidence stored in it carry a signature by that node's own key over that piece of evidence. No arrangement of transaction instructions, precompile arguments, nested program calls, replayed or mutated evidence lets anyone without the node's key obtain a report against it.",
["inputs","schedules","histories"],"every transaction layout an adversary can submit, interleaved with honest reports, under every order of execution",
"Existing tests try a handful of malformed verification instructions at fixed positions; they never let an adversary choose instruction layouts, wrapper programs or evidence reuse.",
[SV,DB,PROC,IX],[("instruction introspection of the signature verification","sigverify.rs inspect_verifications"),("match of verified key/message/signature against shreds","duplicate_block_proof.rs sigverify_shreds")],[TX])
p("S02","No conviction without a real conflict between the two shreds",
"A report is recorded only if its two shreds, both for the reported slot and the same shred version, could not both belong to one honestly produced block: conflicting merkle roots for one erasure set, overlapping erasure sets, different content at the same position, a shred beyond the declared last one, or disagreeing erasure configurations. A node that signed only one consistent version of its block can never be reported, whatever a third party does to the transport bytes of its shreds.",
["inputs","histories"],"all pairs of shreds signed by a node (all kinds, positions, erasure layouts) and all third-party alterations of unsigned bytes",
"Unit tests check one or two sampled pairs per category produced by the stock shredder; boundary values of set overlap, last-index and erasure metadata and malleable bytes are not reached.",
[DB,SH],[("conflict rules","duplicate_block_proof.rs check_shreds"),("payload comparison without retransmitter signature","shred.rs is_shred_duplicate")],[TX])
p("S03","Genuine, timely evidence is eventually recorded",
"Whenever someone holds two conflicting signed shreds of a node for a slot within the reporting window, and keeps submitting the documented three-instruction report, then once faults stop the report is recorded within a bounded number of attempts, for every kind of conflict, either order of the two shreds, and every supported shred format. Failed, forged or front-running attempts by others never prevent this.",
["inputs","schedules","fault_sequences","histories"],"every genuine conflict category and order, any prior history of failed or adversarial attempts and transport faults",
"The tests submit one transaction to a quiet bank; they never mix categories with loss, rollback, junk pre-existing state or adversarial pre-funding of the report address.",
[DB,SH,PROC,ST,IX],[("acceptance branches of check_shreds","duplicate_block_proof.rs"),("instruction builder","instruction.rs duplicate_block_proof_with_sigverify_and_prefund"),("report creation on a prefunded address","state.rs store_violation_report")],[TX])
p("S04","One report per violation, first report wins and never changes",
"For each node and slot at most one violation report exists at a time; the first one committed fixes reporter, destination, epoch and evidence, and nothing alters any byte of it until it is closed. Later submissions for the same violation fail and leave it untouched.",
["schedules","histories","fault_sequences"],"every interleaving of competing reporters, duplicated and reordered transactions, and rollbacks of unconfirmed blocks",
"The single double-report test runs two submissions back to back; races, duplication, reordering and close attempts in between are not explored.",
[ST,PROC,AD],[("duplicate check on the report account","state.rs violation_account_exists"),("report address derivation","address.rs")],[TX])
p("S05","A report says exactly what was submitted and proves itself",
"A recorded report contains the submitted reporter, destination, node and slot, the epoch at which it was recorded and the violation type, followed by exactly the two submitted pieces of evidence in order. From the report account alone anyone can re-check the node's guilt.",
["inputs","histories"],"all submissions accepted in any history, including evidence stored at arbitrary offsets and with surrounding garbage",
"Tests compare one report per category at offset zero or the record-account offset and a fixed epoch.",
[ST,PROC,DB],[("report layout and writing","state.rs write_violation_report"),("proof packing","duplicate_block_proof.rs pack_proof/unpack_proof")],[TX])
p("S06","Reports are accepted only inside the one-epoch window",
"Evidence for a slot is accepted exactly while the chain's current slot is not before that slot and not more than one epoch's worth of slots after it. Reports for future slots or older slots are refused whatever the submission history or clock movement.",
["inputs","schedules","configurations"],"all slots, delays between building and executing a report, clock jumps, skipped slots and epoch lengths",
"One test checks three fixed clock values with the default epoch length.",
[PROC],[("elapsed slot check","processor.rs verify_proof_data")],[TX])
p("S07","A report cannot be closed before three epochs have passed",
"A violation report is removed only at an epoch at least three later than the epoch in which it was recorded. Before that no transaction of any kind removes it, empties it, or takes lamports out of it.",
["schedules","histories","inputs"],"every sequence of close attempts and epoch changes, including boundary and extreme epochs",
"One test warps once to before and once to after the limit.",
[ST,PROC],[("waiting period check","state.rs close_violation_report")],[TX])
p("S08","Closing pays the whole balance to the recorded destination",
"A close that succeeds removes the report account entirely and credits all its lamports, including any sent to it later, to the destination recorded in the report and to nobody else. A close naming any other account, or a report that does not exist, fails. From three epochs after the recording on, however late, anyone's close that names the report and its destination succeeds, provided that the destination can be credited.",
["histories","inputs","schedules"],"all reports, donated balances, closers and claimed destinations in any order",
"The close test covers one report with one balance and one wrong destination.",
[ST,PROC],[("destination check and payout","state.rs close_violation_report")],[TX])
p("S09","Lamports are conserved and nobody else's account changes",
"Every slashing transaction preserves the total of lamports up to the transaction fee, and changes only accounts it is documented to change: the report account, plus the fee payer/funder of the prefunding transfer on a report, or the destination on a close. Evidence accounts, existing reports and bystanders keep every byte and lamport, even when the transaction fails.",
["histories","fault_sequences","inputs"],"all successful and failing transactions, including those aborted by injected faults",
"No existing test looks at accounts other than the report and the destination.",
[PROC,ST,IX],[("account handling","state.rs store_violation_report / close_violation_report")],[TX])
p("S10","A new report is fully funded, exactly sized and owned by the program",
"A recorded report account is owned by the slashing program, is exactly as long as its header plus evidence, and holds at least the rent-exempt minimum for that length; a submission against an insufficiently funded report address fails. The documented prefunding amount is always enough and money sent to the address beforehand never blocks a report.",
["inputs","histories","configurations"],"all prefunding amounts around the threshold, evidence sizes and rent settings",
"Tests use the full prefunding or none.",
[ST,IX],[("prefund check, assign and allocate","state.rs store_violation_report"),("prefund computation","instruction.rs duplicate_block_proof_with_sigverify_and_prefund")],[TX])
p("S11","A submission or close takes effect completely or not at all",
"If processing is cut short anywhere, by exhaustion of the compute budget, a failing system call, a failing nested call or an abort, no partial report, partial close or moved lamports remain. Retrying afterwards succeeds as if the interrupted attempt had never happened.",
["crash_points","fault_sequences"],"every runtime interaction point of every accepted instruction",
"No test interrupts execution.",
[PROC,ST],[("ordering of checks before effects; error propagation","state.rs")],[TX])
p("S12","Malformed input is refused with an error, never an abort",
"Whatever instruction data, account list, evidence bytes or offsets are supplied, the program either carries out a documented operation or returns an error to the caller. It never panics and never reads outside the supplied data.",
["inputs"],"all malformed, truncated, mis-offset and junk-account inputs mixed into running histories",
"Tests try a few wrong lengths; out-of-range offsets, short verification instructions and undersized program-owned accounts are not tried.",
[PROC,SV,SH,DB,ST],[("bounds-checked parsing","throughout")],["result of every simulated program invocation"])
p("S13","One violation is punished at most once, ever",
"With equal-length epochs, once a violation has been recorded it can never be recorded a second time, not even after its report was closed and not by any reordering of report and close. The reporting window always expires before the report can be closed.",
["schedules","histories"],"every interleaving of reports, closes and clock movement over many epochs",
"No test closes a report and then tries to report the violation again.",
[PROC,ST],[("window of one epoch against waiting period of three","processor.rs / state.rs")],[TX])
p("S14","Reports of different violations never interfere",
"Each node and slot has its own report address and a report is only ever stored at the address of the violation it describes. Operations on one report leave all other reports untouched, and accounts that are not genuine reports are never treated as reports.",
["histories","inputs","schedules"],"any set of concurrent violations by several nodes in neighbouring slots, including wrong, swapped and look-alike accounts",
"Tests hold one report at a time.",
[AD,ST,PROC],[("address derivation and check","address.rs, state.rs store_violation_report"),("ownership check on close","processor.rs")],[TX])
p("C01","Attach reports every unreported duplicate in range exactly once",
"Outside dry run, running attach over a ledger ends with exactly one report on chain for every duplicate slot of the ledger inside the requested slot range whose evidence the program accepts, made out to the requested reporter and destination with that slot's leader as violator, and submits nothing, not even evidence, for slots already reported or out of range. The number of violations it announces equals the number it newly recorded.",
["inputs","configurations","schedules"],"all ledgers, slot ranges, pre-existing reports and signer configurations, under all transport delays",
"The CLI tests attach to one ledger with a fixed set of slots on an idle local validator.",
[M,CL,CF],[("scan loop","main.rs command_attach"),("report submission","main.rs report_duplicate_block_violation")],["simulated RPC traffic and chain state"],"guarded seam for ledger access, proof account key and sleeping")
p("C02","A fault on one slot never hides or stops the others",
"Outside dry run, under lost transactions, RPC errors, missing leaders, unreadable evidence, insolvency or competing reporters, attach either gets a slot reported or (in the human-readable output formats) announces that very slot as failed, and goes on with the remaining slots. It never claims to have reported a violation for which no report exists.",
["fault_sequences","schedules"],"every placement of faults over the RPC calls and ledger reads of a scan",
"The CLI tests inject no faults.",
[M],[("per-slot error handling","main.rs command_attach")],["captured output, chain state, simulated RPC traffic"],"same seam as C01")
p("C03","Attach leaves no evidence account behind",
"Every temporary evidence account attach created is closed and its rent returned to the fee payer by the end of the scan, whether or not its report succeeded, as long as the cluster answers the closing requests. One evidence account that cannot be closed does not keep others from being closed, and the closings it announces took place.",
["fault_sequences","schedules"],"every placement of faults over the creation, writing, submission and closing phases",
"The CLI tests never check evidence accounts and inject no faults.",
[M],[("closing of proof accounts","main.rs command_attach")],["chain state after the command"],"same seam as C01")
p("C04","Dry run never changes the chain",
"With dry-run requested, no command ever submits a transaction or changes any account, whatever the chain state, ledger and faults.",
["inputs","configurations","fault_sequences"],"all commands, chain states and fault placements with dry-run set",
"No test runs dry-run and compares chain state.",
[M],[("dry-run switch","main.rs process_transaction")],["simulated RPC traffic and chain state"],"same seam as C01")
p("C05","Close closes exactly the eligible reports that match",
"Close removes exactly those genuine reports that are at least three epochs old and match every given filter, each paying its recorded destination, and leaves all others in place. What it announces (closed reports, recovered lamports, reports still too young) matches what happened.",
["inputs","histories","schedules"],"all sets of reports, filters and epochs, with concurrent closers",
"Tests close one or a few reports with one filter at a time.",
[M,O],[("selection and closing","main.rs command_close")],["chain state before and after; returned output"],"guarded export of the CLI's modules")
p("C06","Close and display cope with accounts planted by strangers",
"Anyone can create accounts owned by the slashing program that are not reports, or genuine reports with odd evidence or with destinations that cannot be credited; their presence never makes close or display fail or crash, and never hides, distorts or blocks genuine reports.",
["histories","inputs"],"all junk accounts a third party can create interleaved with genuine reports",
"Tests only have genuine reports from the stock shredder on chain.",
[M,O],[("parsing of program accounts","main.rs command_close / command_display"),("verbose output","output.rs")],["command result and output; chain state"],"guarded export of the CLI's modules")
p("C07","Display shows exactly the matching reports, truthfully",
"Display lists every open report matching the given epoch, node and reporter filters exactly once, ordered by slot, with the fields recorded on chain, in every output format, and lists nothing else.",
["inputs","histories"],"all sets of reports, filter combinations and output formats",
"Tests display a small fixed set of reports with one filter at a time.",
[M,O],[("selection","main.rs command_display"),("formatting","output.rs")],["returned output against chain state"],"guarded export of the CLI's modules")
p("C08","Crashed or repeated attach runs converge to one report per slot",
"If attach is killed at any point and run again, or several instances run concurrently, then once faults stop every in-window duplicate slot in range ends up reported exactly once, by one of them, and no instance spoils another's report.",
["crash_points","schedules","histories"],"every kill point between and inside RPC calls and every interleaving of several instances",
"The CLI tests never kill or overlap commands.",
[M],[("already-reported check","main.rs report_duplicate_block_violation"),("on-chain duplicate check","state.rs")],["chain state after all runs"],"same seam as C01")
p("C09","Continuous attach keeps reporting new violations",
"In continuous mode each duplicate slot that becomes visible in the ledger beyond the slots already scanned is reported no later than the first scan after it appeared, once faults have stopped, scans keep recurring at the requested interval, and once the watch has started, a failed report or a failed closing of an evidence account does not end it.",
["schedules","fault_sequences","histories"],"all arrival orders of duplicates relative to scans, with per-slot faults",
"No test waits for a second scan with faults; the one continuous test uses a fixed ledger copy.",
[M],[("continuous loop","main.rs command_attach")],["simulated time, RPC traffic and chain state"],"same seam as C01")
p("X01","Instruction encoding round-trips",
"Decoding an encoded instruction yields the original instruction and data for every value.",
["inputs"],"all instruction values","Unit tests sample single values.",[IX],[("pod encoding","instruction.rs encode_instruction/decode_instruction_data")],["return values"])
p("X02","Command-line arguments are parsed as documented",
"Every documented option and conflict between options is honoured by the command-line parser.",
["inputs","configurations"],"all argument vectors","Parser behaviour is only exercised through a few integration tests.",[CL],[("clap definitions","cli.rs")],["parse result"])
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
