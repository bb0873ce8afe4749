//! The cluster as a client meets it: blocks on a virtual clock, a processed tip and an older
//! confirmed state, transactions in flight, fork switches, and one RPC node's answers.
use {
    crate::{
        chain::{Bank, BankState, Genesis, TxResult},
        model,
    },
    base64::{prelude::BASE64_STANDARD, Engine},
    serde_json::{json, Value},
    solana_account_decoder::{encode_ui_account, UiAccountEncoding, UiDataSliceConfig},
    solana_sdk::{
        account::ReadableAccount,
        pubkey::Pubkey,
        signature::Signature,
        transaction::{Transaction, TransactionError},
    },
    std::collections::{BTreeMap, BTreeSet, VecDeque},
};

pub const MS_PER_SLOT: u64 = 400;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Origin {
    /// Index of the client instance that sent it (over the whole run), or `None` for strangers.
    pub instance: Option<usize>,
}

#[derive(Clone)]
pub struct InFlight {
    pub tx: Transaction,
    pub origin: Option<usize>,
}

/// One transaction that entered a block.
#[derive(Clone)]
pub struct Landed {
    pub ms: u64,
    pub slot: u64,
    pub sig: Signature,
    pub origin: Option<usize>,
    pub status: Result<(), TransactionError>,
    pub parsed: Vec<Act>,
    /// Dropped by a later fork switch.
    pub undone: bool,
    tx: Transaction,
}

/// What a transaction does, read from its bytes.
#[derive(Clone, Debug, PartialEq)]
pub enum Act {
    CreateEvidence(Pubkey),
    WriteEvidence(Pubkey),
    CloseEvidence(Pubkey),
    Report { node: Pubkey, slot: u64, reporter: Pubkey, destination: Pubkey, evidence: Pubkey },
    CloseReport { report: Pubkey, destination: Pubkey },
    Other,
}

pub fn parse_tx(tx: &Transaction) -> Vec<Act> {
    let keys = &tx.message.account_keys;
    tx.message
        .instructions
        .iter()
        .map(|ix| {
            let acc = |i: usize| ix.accounts.get(i).and_then(|a| keys.get(*a as usize)).copied().unwrap_or_default();
            let program = keys.get(ix.program_id_index as usize).copied().unwrap_or_default();
            let d = &ix.data;
            if program == spl_record::id() {
                match d.first() {
                    Some(0) => Act::CreateEvidence(acc(0)),
                    Some(1) => Act::WriteEvidence(acc(0)),
                    Some(3) => Act::CloseEvidence(acc(0)),
                    _ => Act::Other,
                }
            } else if program == model::program_id() {
                let key = |o: usize| Pubkey::new_from_array(d[o..o + 32].try_into().unwrap());
                match d.first() {
                    Some(0) => Act::CloseReport { report: acc(0), destination: acc(1) },
                    Some(1) if d.len() >= 113 => Act::Report {
                        slot: u64::from_le_bytes(d[9..17].try_into().unwrap()),
                        node: key(17),
                        reporter: key(49),
                        destination: key(81),
                        evidence: acc(0),
                    },
                    _ => Act::Other,
                }
            } else {
                Act::Other
            }
        })
        .filter(|a| *a != Act::Other)
        .collect()
}

pub struct RpcFailure {
    pub code: i64,
    pub message: String,
    pub data: Value,
}
fn invalid(m: impl Into<String>) -> RpcFailure {
    RpcFailure { code: -32602, message: m.into(), data: Value::Null }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fate {
    Normal,
    Lost,
    Delayed(u64),
    Twice,
}

pub struct Cluster {
    pub bank: Bank,
    pub nodes: Vec<Pubkey>,
    pub seed: u64,
    pub ms: u64,
    /// Slots skipped by explicit jumps, added to those implied by the clock.
    base_slot: u64,
    lag: u64,
    history: VecDeque<(u64, BankState)>,
    pending: BTreeMap<(u64, u64), InFlight>,
    seq: u64,
    pub landed: Vec<Landed>,
    /// Every report account ever seen committed at the tip: its first bytes and since when.
    pub forks: u64,
    pub slots_seen: u64,
    pub unanswered: Vec<String>,
    pub expired: u64,
}

impl Cluster {
    pub fn new(seed: u64, slots_per_epoch: u64, start_slot: u64, rent: u64, lag: u64, nodes: Vec<Pubkey>) -> Self {
        let bank = Bank::new(&Genesis { slots_per_epoch, start_slot, lamports_per_byte_year: rent, fork_id: seed, warmup: false, checked: false, leader_offset: slots_per_epoch });
        Self {
            bank,
            nodes,
            seed,
            ms: 0,
            base_slot: start_slot,
            lag,
            history: VecDeque::new(),
            pending: BTreeMap::new(),
            seq: 0,
            landed: vec![],
            forks: 0,
            slots_seen: 0,
            unanswered: vec![],
            expired: 0,
        }
    }

    pub fn leader(&self, slot: u64) -> usize {
        let h = model::sha(&[b"leader", &self.seed.to_le_bytes(), &(slot / 4).to_le_bytes()]);
        h[0] as usize % self.nodes.len()
    }

    pub fn slot(&self) -> u64 {
        self.bank.st.slot
    }

    /// The slot of a moment, unless slots were skipped since.
    pub fn slot_at(&self, ms: u64) -> u64 {
        self.base_slot + ms / MS_PER_SLOT
    }

    fn reach(&mut self, ms: u64) {
        self.ms = self.ms.max(ms);
        let target = self.base_slot + self.ms / MS_PER_SLOT;
        self.move_to(target);
    }

    fn move_to(&mut self, target: u64) {
        let tip = self.bank.st.slot;
        if target <= tip {
            return;
        }
        // Over a long stretch, the confirmed state keeps up too.
        if target - tip > self.lag + 1 {
            self.step_to(target - self.lag - 1);
        }
        self.step_to(target);
    }

    fn step_to(&mut self, target: u64) {
        let tip = self.bank.st.slot;
        if target <= tip {
            return;
        }
        self.slots_seen += target - tip;
        self.history.push_back((tip, self.bank.st.clone()));
        while self.history.len() > 2 && self.history[1].0 + self.lag + 1 < tip {
            self.history.pop_front();
        }
        let n = target - tip;
        let hashes = n.min(152);
        self.bank.st.slot = target - hashes;
        self.bank.age(hashes);
    }

    /// Jumps over many slots at once (the cluster kept producing blocks meanwhile).
    pub fn skip_slots(&mut self, n: u64) {
        self.flush();
        self.base_slot += n;
        let target = self.base_slot + self.ms / MS_PER_SLOT;
        self.move_to(target);
    }

    pub fn advance(&mut self, ms: u64) {
        while let Some((&(t, q), _)) = self.pending.first_key_value() {
            if t > ms {
                break;
            }
            let f = self.pending.remove(&(t, q)).unwrap();
            self.reach(t);
            self.execute(f);
        }
        self.reach(ms);
    }

    /// Lets everything in flight arrive, within the life of a blockhash.
    pub fn flush(&mut self) {
        let last = self.pending.last_key_value().map(|(k, _)| k.0);
        if let Some(t) = last {
            self.advance(t);
        }
        let settle = self.ms + MS_PER_SLOT * (self.lag + 1);
        self.advance(settle);
    }

    fn execute(&mut self, f: InFlight) -> Option<TxResult> {
        let slot = self.slot();
        let r = self.bank.process(&f.tx, None);
        if r.landed {
            self.landed.push(Landed {
                ms: self.ms,
                slot,
                sig: f.tx.signatures[0],
                origin: f.origin,
                status: r.status.clone(),
                parsed: parse_tx(&f.tx),
                undone: false,
                tx: f.tx,
            });
        } else if r.status == Err(TransactionError::BlockhashNotFound) {
            self.expired += 1;
        }
        Some(r)
    }

    /// A stranger's transaction, straight into the current block.
    pub fn inject(&mut self, tx: Transaction) -> TxResult {
        self.execute(InFlight { tx, origin: None }).unwrap()
    }

    pub fn broadcast(&mut self, tx: Transaction, origin: usize, latency: u64, fate: Fate) {
        let put = |me: &mut Self, delay: u64| {
            me.seq += 1;
            let key = (me.ms + delay, me.seq);
            me.pending.insert(key, InFlight { tx: tx.clone(), origin: Some(origin) });
        };
        match fate {
            Fate::Normal => put(self, latency),
            Fate::Lost => {}
            Fate::Delayed(d) => put(self, latency + d),
            Fate::Twice => {
                put(self, latency);
                put(self, latency * 3 + 700);
            }
        }
    }

    /// The cluster abandons everything not yet confirmed; lost transactions may be re-forwarded.
    pub fn fork(&mut self, reforward: bool) {
        let Some((slot, st)) = self.confirmed_entry() else { return };
        let st = st.clone();
        let tip = self.bank.st.slot;
        self.forks += 1;
        self.bank.restore(&st.into_snapshot());
        self.history.retain(|(s, _)| *s <= slot);
        let mut again = vec![];
        for l in self.landed.iter_mut().filter(|l| !l.undone && l.slot > slot) {
            l.undone = true;
            again.push((l.tx.clone(), l.origin));
        }
        let back = self.bank.st.slot;
        if tip > back {
            let hashes = (tip - back).min(152);
            self.bank.st.slot = tip - hashes;
            self.bank.age(hashes);
        }
        if reforward {
            for (i, (tx, origin)) in again.into_iter().enumerate() {
                self.seq += 1;
                self.pending.insert((self.ms + 300 + 90 * i as u64, self.seq), InFlight { tx, origin });
            }
        }
    }

    fn confirmed_entry(&self) -> Option<(u64, &BankState)> {
        if self.lag == 0 {
            return None;
        }
        let limit = self.bank.st.slot.saturating_sub(self.lag);
        self.history
            .iter()
            .rev()
            .find(|(s, _)| *s <= limit)
            .or(self.history.front())
            .map(|(s, st)| (*s, st))
    }

    /// The state at the confirmed (or any higher) commitment level.
    pub fn confirmed(&self) -> &BankState {
        self.confirmed_entry().map_or(&self.bank.st, |e| e.1)
    }
    pub fn confirmed_slot(&self) -> u64 {
        self.confirmed_entry().map_or(self.bank.st.slot, |e| e.0)
    }

    fn state(&self, config: &Value) -> &BankState {
        match config["commitment"].as_str() {
            Some("processed") => &self.bank.st,
            _ => self.confirmed(),
        }
    }

    fn simulate(&mut self, tx: &Transaction, processed: bool, sig_verify: bool, fresh_blockhash: bool) -> TxResult {
        let mut tx = tx.clone();
        let old = (!processed).then(|| self.confirmed_entry().map(|e| e.1.clone())).flatten();
        match old {
            None => {
                if fresh_blockhash {
                    tx.message.recent_blockhash = self.bank.latest_blockhash();
                }
                self.bank.simulate(&tx, sig_verify)
            }
            Some(st) => {
                let tip = self.bank.snapshot();
                self.bank.view(&st.into_snapshot());
                if fresh_blockhash {
                    tx.message.recent_blockhash = self.bank.latest_blockhash();
                }
                let r = self.bank.simulate(&tx, sig_verify);
                self.bank.view(&tip);
                r
            }
        }
    }

    pub fn reports(&self) -> crate::cli_world::Reports {
        crate::cli_world::reports_in(&self.bank.st)
    }

    /// Answers one request. `latency` and `fate` apply to a transaction it submits.
    pub fn answer(&mut self, method: &str, params: &Value, origin: usize, latency: u64, fate: Fate) -> Result<Value, RpcFailure> {
        let key = |v: &Value| -> Result<Pubkey, RpcFailure> {
            v.as_str().and_then(|s| s.parse().ok()).ok_or_else(|| invalid("Invalid param: pubkey"))
        };
        let tx_of = |v: &Value, cfg: &Value| -> Result<Transaction, RpcFailure> {
            let s = v.as_str().ok_or_else(|| invalid("transaction"))?;
            let bytes = match cfg["encoding"].as_str() {
                Some("base64") => BASE64_STANDARD.decode(s).map_err(|e| invalid(e.to_string()))?,
                _ => bs58::decode(s).into_vec().map_err(|e| invalid(e.to_string()))?,
            };
            if bytes.len() > crate::chain::PACKET_DATA_SIZE {
                return Err(invalid(format!("decoded solana_transaction too large: {} bytes (max: 1232 bytes)", bytes.len())));
            }
            bincode::deserialize(&bytes).map_err(|e| invalid(format!("failed to deserialize solana_transaction: {e}")))
        };
        let with_slot = |slot: u64, value: Value| json!({"context": {"slot": slot, "apiVersion": "2.3.5"}, "value": value});
        let last = params.as_array().and_then(|a| a.last()).filter(|v| v.is_object()).cloned().unwrap_or(Value::Null);
        let encoding = |default: UiAccountEncoding| -> UiAccountEncoding {
            serde_json::from_value(last["encoding"].clone()).unwrap_or(default)
        };
        let slice: Option<UiDataSliceConfig> = serde_json::from_value(last["dataSlice"].clone()).unwrap_or(None);
        Ok(match method {
            "getAccountInfo" | "getMultipleAccounts" => {
                let st = self.state(&last);
                let one = |k: Pubkey| match st.accounts.get(&k).filter(|a| a.lamports() > 0) {
                    Some(a) => serde_json::to_value(encode_ui_account(&k, a, encoding(UiAccountEncoding::Base64), None, slice)).unwrap(),
                    None => Value::Null,
                };
                let v = if method == "getAccountInfo" {
                    one(key(&params[0])?)
                } else {
                    let mut out = vec![];
                    for p in params[0].as_array().ok_or_else(|| invalid("pubkeys"))? {
                        out.push(one(key(p)?));
                    }
                    Value::Array(out)
                };
                with_slot(st.slot, v)
            }
            "getBalance" => {
                let st = self.state(&last);
                let l = st.accounts.get(&key(&params[0])?).map_or(0, |a| a.lamports());
                with_slot(st.slot, json!(l))
            }
            "getProgramAccounts" => {
                let owner = key(&params[0])?;
                let st = self.state(&last);
                let mut rows: Vec<(&Pubkey, &solana_sdk::account::AccountSharedData)> = st
                    .accounts
                    .iter()
                    .filter(|(_, a)| a.lamports() > 0 && *a.owner() == owner)
                    .filter(|(_, a)| {
                        last["filters"].as_array().is_none_or(|fs| fs.iter().all(|f| matches_filter(f, a.data())))
                    })
                    .collect();
                // A node returns them in no particular order.
                rows.sort_by_key(|(k, _)| model::sha(&[&self.seed.to_le_bytes(), k.as_ref()]));
                let v = rows
                    .into_iter()
                    .map(|(k, a)| {
                        json!({"pubkey": k.to_string(), "account": encode_ui_account(k, a, encoding(UiAccountEncoding::Base64), None, slice)})
                    })
                    .collect::<Vec<_>>();
                if last["withContext"] == json!(true) {
                    with_slot(st.slot, json!(v))
                } else {
                    json!(v)
                }
            }
            "getLatestBlockhash" => {
                let st = self.state(&last);
                let h = st.blockhashes.back().unwrap();
                with_slot(st.slot, json!({"blockhash": h.to_string(), "lastValidBlockHeight": st.slot + 150}))
            }
            "isBlockhashValid" => {
                let h: solana_sdk::hash::Hash = params[0].as_str().and_then(|s| s.parse().ok()).ok_or_else(|| invalid("blockhash"))?;
                let st = self.state(&last);
                with_slot(st.slot, json!(st.blockhashes.contains(&h)))
            }
            "getSignatureStatuses" => {
                let confirmed = self.confirmed_slot();
                let tip = self.slot();
                let mut out = vec![];
                for s in params[0].as_array().ok_or_else(|| invalid("signatures"))? {
                    let sig: Signature = s.as_str().and_then(|s| s.parse().ok()).ok_or_else(|| invalid("signature"))?;
                    out.push(match self.bank.st.status.get(&sig) {
                        None => Value::Null,
                        Some((slot, status)) => {
                            let rooted = slot + 31 <= tip;
                            let level = if rooted { "finalized" } else if *slot <= confirmed { "confirmed" } else { "processed" };
                            json!({
                                "slot": slot,
                                "confirmations": if rooted { Value::Null } else { json!(tip - slot) },
                                "status": status,
                                "err": status.clone().err(),
                                "confirmationStatus": level,
                            })
                        }
                    });
                }
                with_slot(tip, json!(out))
            }
            "sendTransaction" => {
                let tx = tx_of(&params[0], &last)?;
                let sig = tx.signatures.first().copied().ok_or_else(|| invalid("no signature"))?;
                if last["skipPreflight"] != json!(true) {
                    let processed = last["preflightCommitment"].as_str() == Some("processed");
                    let r = self.simulate(&tx, processed, true, false);
                    // A transaction the node already knows passes its simulation again.
                    if let Err(e) = &r.status {
                        return Err(RpcFailure {
                            code: -32002,
                            message: format!("Transaction simulation failed: {e}"),
                            data: simulation(&r),
                        });
                    }
                } else if tx.verify().is_err() {
                    return Err(RpcFailure { code: -32003, message: "Transaction signature verification failure".into(), data: Value::Null });
                }
                self.broadcast(tx, origin, latency, fate);
                json!(sig.to_string())
            }
            "simulateTransaction" => {
                let tx = tx_of(&params[0], &last)?;
                let r = self.simulate(&tx, last["commitment"].as_str() == Some("processed"), last["sigVerify"] == json!(true), last["replaceRecentBlockhash"] == json!(true));
                with_slot(self.slot(), simulation(&r))
            }
            "getEpochInfo" => {
                let st = self.state(&last);
                let n = self.bank.schedule.slots_per_epoch;
                json!({"epoch": self.bank.schedule.get_epoch(st.slot), "slotIndex": st.slot % n, "slotsInEpoch": n,
                    "absoluteSlot": st.slot, "blockHeight": st.slot, "transactionCount": 1})
            }
            "getEpochSchedule" => serde_json::to_value(&self.bank.schedule).unwrap(),
            "getSlot" | "getBlockHeight" => json!(self.state(&last).slot),
            "getSlotLeaders" => {
                let start = params[0].as_u64().ok_or_else(|| invalid("slot"))?;
                let limit = params[1].as_u64().ok_or_else(|| invalid("limit"))?;
                if limit > 5000 {
                    return Err(invalid("Invalid limit; max 5000"));
                }
                let schedule = &self.bank.schedule;
                let (first, now) = (schedule.get_epoch(start), self.bank.epoch());
                if first + 4 < now || schedule.get_epoch(start + limit.saturating_sub(1)) > now + 1 {
                    return Err(invalid(format!("Invalid slot range: leader schedule for epoch {first} is unavailable")));
                }
                json!((start..start + limit).map(|s| self.nodes[self.leader(s)].to_string()).collect::<Vec<_>>())
            }
            "getSlotLeader" => json!(self.nodes[self.leader(self.state(&last).slot)].to_string()),
            "getLeaderSchedule" => {
                let st = self.state(&last);
                let schedule = &self.bank.schedule;
                let e = schedule.get_epoch(params[0].as_u64().unwrap_or(st.slot));
                let first = schedule.get_first_slot_in_epoch(e);
                let mut m: BTreeMap<String, Vec<u64>> = BTreeMap::new();
                for i in 0..schedule.slots_per_epoch {
                    m.entry(self.nodes[self.leader(first + i)].to_string()).or_default().push(i);
                }
                json!(m)
            }
            "getMinimumBalanceForRentExemption" => json!(self.bank.rent.minimum_balance(params[0].as_u64().unwrap_or(0) as usize)),
            "getFeeForMessage" => with_slot(self.slot(), json!(5000)),
            "getHealth" => json!("ok"),
            "getVersion" => json!({"solana-core": "2.3.5", "feature-set": 0}),
            "getGenesisHash" => json!(solana_sdk::hash::Hash::new_from_array(model::sha(&[&self.seed.to_le_bytes()])).to_string()),
            "getFirstAvailableBlock" | "minimumLedgerSlot" => json!(0),
            other => {
                self.unanswered.push(other.to_string());
                return Err(RpcFailure { code: -32601, message: format!("Method not found: {other}"), data: Value::Null });
            }
        })
    }

    /// Evidence accounts (owned by the record program) that exist at the tip.
    pub fn evidence_accounts(&self) -> BTreeSet<Pubkey> {
        self.bank
            .st
            .accounts
            .iter()
            .filter(|(_, a)| a.lamports() > 0 && *a.owner() == spl_record::id())
            .map(|(k, _)| *k)
            .collect()
    }
}

fn simulation(r: &TxResult) -> Value {
    json!({
        "err": r.status.clone().err(),
        "logs": r.logs,
        "accounts": null,
        "unitsConsumed": r.units,
        "returnData": null,
        "innerInstructions": null,
        "replacementBlockhash": null,
    })
}

fn matches_filter(f: &Value, data: &[u8]) -> bool {
    if let Some(n) = f["dataSize"].as_u64() {
        return data.len() as u64 == n;
    }
    let m = &f["memcmp"];
    if m.is_object() {
        let o = m["offset"].as_u64().unwrap_or(0) as usize;
        let bytes = match (&m["bytes"], m["encoding"].as_str()) {
            (Value::String(s), Some("base64")) => BASE64_STANDARD.decode(s).unwrap_or_default(),
            (Value::String(s), _) => bs58::decode(s).into_vec().unwrap_or_default(),
            (Value::Array(a), _) => a.iter().map(|x| x.as_u64().unwrap_or(0) as u8).collect(),
            _ => vec![],
        };
        return data.get(o..o + bytes.len()) == Some(&bytes[..]);
    }
    true
}
