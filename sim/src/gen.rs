//! The seeded scheduler of the program-level world: decides who does what when, what the network
//! and the cluster do to it, and which faults strike.
use {
    crate::{
        evidence::{self, Evidence, Mut, Source},
        rng::Rng,
        svm::{CrashKind, CrashPlan},
        world::*,
    },
    solana_sdk::pubkey::Pubkey,
};

#[derive(Clone)]
pub struct Profile {
    pub ops: (u64, u64),
    /// report, attack, close, transfer, raw, clock, fork, sweep, multi
    pub weights: [u64; 9],
    /// genuine, dense, honest
    pub evidence: [u64; 3],
    pub mutate: u64,
    /// Evidence filled up to the size of a packet or beyond
    pub pad: u64,
    pub reuse: u64,
    pub window_edges: u64,
    pub canonical: u64,
    /// Percentage of transactions the network or the runtime interferes with.
    pub faults: u64,
    pub odd_funding: u64,
}

pub fn profile(property: &str) -> Profile {
    let base = Profile {
        ops: (25, 60),
        weights: [30, 15, 15, 6, 4, 22, 3, 1, 4],
        evidence: [60, 25, 15],
        mutate: 6,
        pad: 2,
        reuse: 30,
        window_edges: 15,
        canonical: 80,
        faults: 25,
        odd_funding: 10,
    };
    match property {
        "S01" => Profile {
            weights: [10, 70, 2, 2, 3, 6, 1, 0, 6],
            mutate: 10,
            window_edges: 3,
            faults: 8,
            ..base
        },
        "S02" => Profile {
            weights: [80, 5, 1, 1, 0, 8, 1, 0, 4],
            evidence: [10, 55, 35],
            mutate: 30,
            window_edges: 3,
            reuse: 3,
            canonical: 97,
            faults: 4,
            ..base
        },
        "S03" => Profile {
            weights: [65, 10, 2, 8, 2, 10, 2, 0, 2],
            evidence: [60, 36, 4],
            mutate: 4,
            reuse: 15,
            window_edges: 6,
            canonical: 92,
            faults: 20,
            ..base
        },
        "S04" => Profile {
            weights: [40, 8, 10, 8, 4, 14, 4, 0, 12],
            evidence: [90, 8, 2],
            reuse: 65,
            window_edges: 6,
            faults: 35,
            ..base
        },
        "S05" => Profile {
            weights: [60, 12, 5, 4, 1, 14, 2, 0, 4],
            evidence: [60, 36, 4],
            reuse: 15,
            mutate: 12,
            canonical: 70,
            window_edges: 8,
            ..base
        },
        "S06" => Profile {
            weights: [50, 3, 4, 1, 0, 34, 6, 0, 2],
            evidence: [95, 5, 0],
            mutate: 0,
            reuse: 35,
            window_edges: 75,
            canonical: 90,
            faults: 20,
            ..base
        },
        "S07" | "S08" => Profile {
            weights: [20, 2, 42, 10, 3, 22, 4, 0, 9],
            evidence: [98, 2, 0],
            mutate: 0,
            window_edges: 3,
            canonical: 95,
            ..base
        },
        "S09" => Profile {
            weights: [34, 12, 18, 10, 4, 18, 3, 1, 6],
            mutate: 4,
            canonical: 55,
            odd_funding: 40,
            ..base
        },
        "S10" => Profile {
            weights: [50, 10, 8, 18, 1, 12, 2, 0, 6],
            evidence: [80, 20, 0],
            mutate: 8,
            pad: 20,
            canonical: 50,
            window_edges: 2,
            odd_funding: 60,
            ..base
        },
        "S11" => Profile {
            ops: (14, 30),
            weights: [14, 4, 4, 4, 2, 22, 3, 22, 3],
            evidence: [85, 10, 5],
            faults: 50,
            pad: 12,
            canonical: 75,
            ..base
        },
        "S12" => Profile {
            weights: [18, 14, 8, 2, 45, 8, 1, 0, 4],
            evidence: [30, 35, 35],
            mutate: 55,
            canonical: 70,
            ..base
        },
        "S13" => Profile {
            weights: [34, 2, 28, 3, 0, 26, 6, 0, 8],
            evidence: [98, 2, 0],
            mutate: 0,
            reuse: 70,
            window_edges: 25,
            canonical: 95,
            ..base
        },
        "S14" => Profile {
            weights: [34, 12, 24, 6, 10, 18, 2, 0, 10],
            evidence: [94, 4, 2],
            reuse: 35,
            window_edges: 4,
            ..base
        },
        _ => base,
    }
}

pub fn config(seed: u64) -> Config {
    let mut r = Rng::derive(seed, "config");
    let slots_per_epoch = *r.pick(&[32u64, 32, 33, 48, 64, 100, 432]);
    let start_slot = slots_per_epoch * r.range(10, 14) + r.below(slots_per_epoch);
    let lamports_per_byte_year = *r.pick(&[3480u64, 3480, 3480, 1, 100, 174, 40_000]);
    // Young and old clusters, long epochs, and epochs that grow at first.
    let mut r = Rng::derive(seed, "cluster");
    let slots_per_epoch = if r.pct(12) { *r.pick(&[8192u64, 50_000, 432_000]) } else { slots_per_epoch };
    let within = r.below(slots_per_epoch);
    let start_slot = match r.below(20) {
        0..=1 => within,
        2 => slots_per_epoch + within,
        3 => slots_per_epoch * r.range(2, 5) + within,
        4 => 375_000_000 + within,
        5 => (1 << *r.pick(&[16u32, 31, 32, 33, 40, 56])) + within - r.below(slots_per_epoch),
        _ if slots_per_epoch > 432 => slots_per_epoch * 10 + within,
        _ => start_slot,
    };
    Config {
        seed,
        slots_per_epoch,
        start_slot,
        lamports_per_byte_year,
        warmup: r.pct(5),
        checked: r.pct(25),
        leader_offset: if r.pct(10) { *r.pick(&[slots_per_epoch / 2, slots_per_epoch * 2]) } else { slots_per_epoch },
    }
}

pub struct Gen {
    pub r: Rng,
    pub p: Profile,
    /// Genuine evidence somebody holds.
    pub known: Vec<Evidence>,
}

impl Gen {
    pub fn new(seed: u64, p: Profile) -> Self {
        Self {
            r: Rng::derive(seed, "schedule"),
            p,
            known: vec![],
        }
    }

    fn pick_slot(&mut self, w: &World) -> u64 {
        let now = w.slot();
        let n = w.cfg.slots_per_epoch;
        let ago = |k: u64| now.saturating_sub(k);
        // A slot that looks like an earlier one when cut to 32 bits.
        let twin = self.known.iter().map(|e| e.slot.wrapping_add((now >> 32) << 32)).find(|s| *s <= now && ago(n) <= *s);
        let r = &mut self.r;
        if let Some(s) = twin.filter(|_| now >> 32 > 0) {
            if r.pct(30) {
                return s;
            }
        }
        if r.pct(self.p.window_edges) {
            match r.below(14) {
                0..=1 => now,
                2 => ago(1),
                3 => ago(n - 1),
                4..=5 => ago(n),
                6..=7 => ago(n + 1),
                8 => ago(n + 2),
                9 => ago(2 * n),
                10 => now + 1,
                11 => now + r.range(1, 2 * n),
                12 => ago(n + r.range(1, 2 * n)),
                _ => *r.pick(&[0, 1, u64::MAX, u64::MAX - n, 1 << 63, ago(3 * n)]),
            }
        } else {
            ago(r.range(1, n - 2))
        }
    }

    fn fresh_evidence(&mut self, w: &World) -> Evidence {
        let slot = self.pick_slot(w);
        let node = self.r.below(NODES as u64 + 1) as u8;
        let r = &mut self.r;
        let mut e = match r.weighted(&self.p.evidence) {
            0 => {
                let k = *r.pick(&evidence::KINDS);
                evidence::genuine(r, node, slot, k)
            }
            1 => evidence::dense(r, node, slot),
            _ => evidence::honest(r, node, slot),
        };
        if r.pct(self.p.mutate) {
            evidence::mutate(r, &mut e);
        } else if matches!(e.src, Source::Honest { .. }) && r.pct(60) {
            evidence::mutate(r, &mut e);
        }
        if e.muts.is_empty() && r.pct(self.p.pad) {
            evidence::pad(r, &mut e);
        }
        if self.known.len() < 40 && w.obliging(&e) {
            self.known.push(e.clone());
        }
        e
    }

    fn evidence(&mut self, w: &World) -> Evidence {
        if !self.known.is_empty() && self.r.pct(self.p.reuse) {
            let i = self.r.idx(self.known.len());
            let mut e = self.known[i].clone();
            if self.r.pct(40) {
                // Other evidence for the same violation.
                let k = *self.r.pick(&evidence::KINDS);
                e = evidence::genuine(&mut self.r, e.node, e.slot, k);
            }
            return e;
        }
        self.fresh_evidence(w)
    }

    fn dest(&mut self, ev: &Evidence) -> Addr {
        let r = &mut self.r;
        match r.below(20) {
            0..=5 => Addr::Person(r.below(PEOPLE as u64) as u8),
            6..=11 => Addr::Fresh(r.below(6) as u8),
            12..=13 => Addr::Node(r.below(4) as u8),
            14 => Addr::Report {
                node: ev.node,
                slot: ev.slot,
            },
            15 => match self.known.first() {
                Some(k) => Addr::Report {
                    node: k.node,
                    slot: k.slot,
                },
                None => Addr::Fresh(0),
            },
            16 => Addr::Minimal,
            17 => Addr::Junk(r.below(4) as u8),
            18 => *r.pick(&[Addr::Clock, Addr::System, Addr::Default, Addr::Slashing]),
            _ => Addr::Person(0),
        }
    }

    fn fund(&mut self) -> Fund {
        let r = &mut self.r;
        if r.pct(self.p.odd_funding) {
            match r.below(8) {
                0 => Fund::None,
                1 => Fund::Exact(-1),
                2 => Fund::Exact(0),
                3 => Fund::Exact(1),
                4 => Fund::Exact(-(r.range(2, 200_000) as i64)),
                5..=6 => Fund::Over(*r.pick(&[1, 1000, 1 << 24, 1 << 34])),
                _ => Fund::Max,
            }
        } else {
            Fund::Max
        }
    }

    fn report(&mut self, w: &World) -> ReportOp {
        let ev = self.evidence(w);
        let dest = self.dest(&ev);
        let mut fund = self.fund();
        let padded = ev.muts.iter().any(|m| matches!(m, Mut::PadTo { .. }));
        if padded && self.r.coin() {
            fund = Fund::Exact(0);
        }
        let canonical = self.p.canonical;
        let r = &mut self.r;
        let form = if fund == Fund::Max && r.pct(canonical) || r.pct(canonical / 2) {
            Form::Canonical
        } else if r.pct(15) {
            Form::Nested {
                outer: Decoy::Copy,
                fund,
                sigs: true,
            }
        } else {
            Form::Custom {
                place: Place::Before,
                count: (2, 0),
                entries: vec![Entry::CANON, Entry::CANON],
                decoy: if r.pct(15) { Decoy::Copy } else { Decoy::None },
                own: Decoy::None,
                fund,
            }
        };
        let custom = matches!(form, Form::Custom { .. });
        let mut proof = ProofForm::NORMAL;
        if r.pct(20) {
            proof.prefix = *r.pick(&[0, 1, 32, 33, 34, 100, 255, 65_569, 66_000]);
            proof.tail = *r.pick(&[0, 0, 1, 7, 64, 300]);
        }
        ReportOp {
            ev,
            reporter: r.below(PEOPLE as u64) as u8,
            dest,
            form,
            proof,
            twist: if r.pct(3) {
                Twist::SwapRoots
            } else if custom && r.pct(30) {
                Twist::Writable { payer: r.coin() }
            } else {
                Twist::None
            },
        }
    }

    /// Evidence the accused node did not (fully) sign.
    fn forged(&mut self, w: &World, how: u64, which: u8) -> Evidence {
        let slot = self.pick_slot(w);
        let node = self.r.below(NODES as u64) as u8;
        let kind = *self.r.pick(&evidence::KINDS);
        let mut e = evidence::genuine(&mut self.r, node, slot, kind);
        e.swap = false;
        if let Source::Pair {
            signer_a, signer_b, ..
        } = &mut e.src
        {
            match how {
                0 => {
                    if which != 1 {
                        *signer_a = ATTACKER
                    }
                    if which != 0 {
                        *signer_b = ATTACKER
                    }
                }
                1 => {
                    for k in 0..2 {
                        if which == k || which == 2 {
                            e.muts.push(Mut::Signature {
                                which: k,
                                other: true,
                            });
                        }
                    }
                }
                2 => {
                    for k in 0..2 {
                        if which == k || which == 2 {
                            e.muts.push(Mut::Signature {
                                which: k,
                                other: false,
                            });
                        }
                    }
                }
                _ => {}
            }
        }
        e
    }

    fn attack(&mut self, w: &World) -> ReportOp {
        let which = self.r.below(3) as u8;
        let (c, canon) = (Entry::CANON, vec![Entry::CANON, Entry::CANON]);
        let custom = |place, count, entries, decoy| Form::Custom {
            place,
            count,
            entries,
            decoy,
            own: Decoy::None,
            fund: Fund::Max,
        };
        let with_own = |entries, own| Form::Custom {
            place: Place::Before,
            count: (2, 0),
            entries,
            decoy: Decoy::None,
            own,
            fund: Fund::Max,
        };
        let subst = |e: Entry| -> Vec<Entry> {
            match which {
                0 => vec![e, c],
                1 => vec![c, e],
                _ => vec![e, e],
            }
        };
        let mut twist = Twist::None;
        let mut proof = ProofForm::NORMAL;
        let recipe = self.r.below(29);
        let (ev, form) = match recipe {
            0..=1 => {
                // Only some of the verifications happen.
                let k = *self.r.pick(&[(1u8, 0u8), (1, 1), (1, 2), (0, 1), (0, 2), (0, 0), (1, 255), (2, 1)]);
                let which = if k.0 == 0 { which } else { 1 };
                (self.forged(w, 0, which), custom(Place::Before, k, canon, Decoy::None))
            }
            2..=3 => (
                self.forged(w, 0, which),
                custom(Place::Before, (2, 0), subst(Entry { pk: Loc::Decoy, ..c }), Decoy::Adversary),
            ),
            4 => (
                self.forged(w, 1, which),
                custom(Place::Before, (2, 0), subst(Entry { msg: Loc::Decoy, ..c }), Decoy::Unrelated),
            ),
            5 => (
                self.forged(w, 2, which),
                custom(Place::Before, (2, 0), subst(Entry { sig: Loc::Decoy, ..c }), Decoy::Copy),
            ),
            6..=7 => {
                twist = if self.r.coin() {
                    Twist::ReporterField { unrelated: false }
                } else {
                    Twist::DestField { unrelated: false }
                };
                let l = if matches!(twist, Twist::ReporterField { .. }) { Loc::Reporter } else { Loc::Dest };
                (
                    self.forged(w, 0, which),
                    custom(Place::Before, (2, 0), subst(Entry { pk: l, ..c }), Decoy::None),
                )
            }
            8..=9 => {
                twist = if self.r.coin() {
                    Twist::ReporterField { unrelated: true }
                } else {
                    Twist::DestField { unrelated: true }
                };
                let l = if matches!(twist, Twist::ReporterField { .. }) { Loc::Reporter } else { Loc::Dest };
                (
                    self.forged(w, 1, which),
                    custom(Place::Before, (2, 0), subst(Entry { msg: l, ..c }), Decoy::None),
                )
            }
            10..=11 => {
                let sigs = self.r.pct(85);
                let adv = self.r.coin();
                (
                    self.forged(w, if adv { 0 } else { 1 }, 2),
                    Form::Nested {
                        outer: if adv { Decoy::Adversary } else { Decoy::Unrelated },
                        fund: if self.r.pct(70) { Fund::Max } else { Fund::None },
                        sigs,
                    },
                )
            }
            12 => (
                self.forged(w, self.r.clone().below(3), which),
                custom(*self.r.pick(&[Place::Nowhere, Place::OtherProgram]), (2, 0), canon, Decoy::None),
            ),
            13 => (
                self.forged(w, 0, which),
                custom(
                    *self.r.pick(&[Place::Gap, Place::After]),
                    (2, 0),
                    vec![Entry { pk: Loc::Decoy, msg: Loc::Decoy, sig: Loc::Decoy, size: 32 }; 2],
                    Decoy::Adversary,
                ),
            ),
            14 => {
                // Verify one piece twice.
                let k = self.r.below(2) as u8;
                let x = Entry { msg: Loc::Cross, sig: Loc::Cross, ..c };
                (
                    self.forged(w, self.r.clone().below(3), k),
                    custom(Place::Before, (2, 0), if k == 0 { vec![x, c] } else { vec![c, x] }, Decoy::None),
                )
            }
            15 => {
                let second = self.forged(w, self.r.clone().below(3), 2);
                let first = self.evidence(w);
                (first, Form::Twice { second: Box::new(second) })
            }
            16 => {
                twist = Twist::InstructionsAccount(Addr::FakeInstructions);
                (
                    self.forged(w, 0, which),
                    custom(Place::Nowhere, (2, 0), vec![], if self.r.coin() { Decoy::Copy } else { Decoy::None }),
                )
            }
            17 => (
                self.forged(w, 3, 0),
                custom(
                    Place::Before,
                    (2, 0),
                    subst(Entry { size: *self.r.pick(&[0, 1, 31, 33, 64, 191]), ..c }),
                    Decoy::None,
                ),
            ),
            18 => {
                // Genuine verification, but placed wrongly or counted oddly.
                let place = *self.r.pick(&[Place::Gap, Place::After, Place::Nowhere, Place::OtherProgram, Place::Before]);
                let count = *self.r.pick(&[(2u8, 0u8), (2, 0), (1, 0), (3, 0), (2, 7)]);
                let mut entries = canon;
                if count.0 == 3 {
                    entries.push(c);
                }
                (self.evidence(w), custom(place, count, entries, Decoy::None))
            }
            19 => {
                twist = self.bad_account(w);
                (self.evidence(w), custom(Place::Before, (2, 0), canon, Decoy::None))
            }
            20 => {
                twist = match self.r.below(4) {
                    0 => Twist::Slot(*self.r.pick(&[1, -1, 32, -32, 256, i64::MIN])),
                    1 => Twist::SwapRoots,
                    2 => Twist::DataLen(*self.r.pick(&[-1, 1, -100, 100])),
                    _ => Twist::ReportReadonly,
                };
                (self.evidence(w), custom(Place::Before, (2, 0), canon, Decoy::None))
            }
            21 => {
                proof = self.odd_proof();
                (self.evidence(w), Form::Canonical)
            }
            22 => {
                // Someone else's evidence.
                let mut e = self.evidence(w);
                e.node = (e.node + 1) % NODES;
                (e, Form::Canonical)
            }
            23..=24 => {
                // The adversary's signatures verify against the key the verification
                // instruction itself carries where the slashing instruction has the victim's.
                let l = if self.r.coin() {
                    twist = Twist::ReporterIsNode;
                    Loc::OwnReporter
                } else {
                    twist = Twist::DestIsNode;
                    Loc::OwnDest
                };
                let whole = self.r.pct(30);
                let e = if whole {
                    Entry { pk: l, msg: Loc::Own, sig: Loc::Own, size: 32 }
                } else {
                    Entry { pk: l, ..c }
                };
                let own = if whole { Decoy::Adversary } else { *self.r.pick(&[Decoy::Adversary, Decoy::Adversary, Decoy::Copy]) };
                (self.forged(w, 0, which), with_own(subst(e), own))
            }
            25 => {
                // The verified messages or signatures are in the verification instruction.
                let l = *self.r.pick(&[Loc::Own, Loc::OwnIndex]);
                if self.r.coin() {
                    (self.forged(w, 1, which), with_own(subst(Entry { msg: l, ..c }), Decoy::Unrelated))
                } else {
                    (self.forged(w, 2, which), with_own(subst(Entry { sig: l, ..c }), Decoy::Copy))
                }
            }
            26 => {
                // Genuine claims, altered evidence.
                let mut e = self.forged(w, 3, 0);
                e.muts.push(evidence::tamper(&mut self.r, which & 1));
                (e, if self.r.coin() { Form::Canonical } else { custom(Place::Before, (2, 0), canon, Decoy::None) })
            }
            _ => {
                let loc = |r: &mut Rng| {
                    *r.pick(&[
                        Loc::Canon,
                        Loc::Canon,
                        Loc::Canon,
                        Loc::Decoy,
                        Loc::Reporter,
                        Loc::Dest,
                        Loc::Cross,
                        Loc::Own,
                        Loc::OwnIndex,
                        Loc::OwnReporter,
                        Loc::OwnDest,
                    ])
                };
                let r = &mut self.r;
                let n = r.range(1, 3);
                let entries = (0..n)
                    .map(|_| Entry { pk: loc(r), msg: loc(r), sig: loc(r), size: 32 })
                    .collect();
                let place = *r.pick(&[Place::Before, Place::Before, Place::Before, Place::Gap, Place::After]);
                let count = (r.below(4) as u8, r.below(3) as u8);
                let decoy = *r.pick(&[Decoy::Adversary, Decoy::Unrelated, Decoy::Copy]);
                twist = *r.pick(&[
                    Twist::None,
                    Twist::ReporterField { unrelated: false },
                    Twist::ReporterField { unrelated: true },
                    Twist::DestField { unrelated: false },
                    Twist::DestField { unrelated: true },
                    Twist::ReporterIsNode,
                    Twist::DestIsNode,
                ]);
                let own = *r.pick(&[Decoy::None, Decoy::Adversary, Decoy::Unrelated, Decoy::Copy]);
                let how = r.below(4);
                let mut form = custom(place, count, entries, decoy);
                if let Form::Custom { own: o, .. } = &mut form {
                    *o = own;
                }
                (self.forged(w, how, which), form)
            }
        };
        let dest = match twist {
            Twist::DestField { .. } => Addr::Node(ATTACKER),
            _ => self.dest(&ev),
        };
        ReportOp {
            ev,
            reporter: self.r.below(PEOPLE as u64) as u8,
            dest,
            form,
            proof,
            twist,
        }
    }

    fn odd_proof(&mut self) -> ProofForm {
        let r = &mut self.r;
        let mut p = ProofForm::NORMAL;
        match r.below(4) {
            0 => {
                p.offset = Some(*r.pick(&[
                    0,
                    1,
                    32,
                    34,
                    2000,
                    2471,
                    2472,
                    2473,
                    5000,
                    // What remains of these after a truncation is where the evidence is.
                    33 + (1 << 8),
                    33 + (1 << 16),
                    33 + (1 << 32),
                    33 + (1 << 63),
                    1 << 31,
                    1 << 32,
                    u64::MAX,
                    u64::MAX - 32,
                    1 << 63,
                ]))
            }
            1 => p.cut = Some(*r.pick(&[0, 1, 32, 33, 34, 36, 37, 100, 1236, 1240, 1241, 1265, 2400])),
            2 => p.len1 = Some(*r.pick(&[0, 1, 64, 1202, 1204, 2000, 1 << 31, u32::MAX, u32::MAX - 3])),
            _ => p.len2 = Some(*r.pick(&[0, 1, 64, 1202, 1204, 2000, 1 << 31, u32::MAX, u32::MAX - 3])),
        }
        p
    }

    fn bad_account(&mut self, w: &World) -> Twist {
        let a = self.any_addr(w);
        match self.r.below(7) {
            0..=2 => Twist::ReportAccount(a),
            3 => Twist::ProofAccount(a),
            4 => Twist::InstructionsAccount(a),
            5 => Twist::SystemAccount(a),
            _ => {
                if self.r.coin() {
                    Twist::DropAccounts(self.r.range(1, 4) as u8)
                } else {
                    Twist::ExtraAccount
                }
            }
        }
    }

    fn some_report(&mut self, w: &World) -> Option<Addr> {
        let n = w.model.reports.len();
        if n == 0 {
            return None;
        }
        let i = self.r.idx(n);
        let h = &w.model.reports.values().nth(i).unwrap().header;
        let node = (0..=NODES).find(|k| w.node(*k) == h.node)?;
        Some(Addr::Report { node, slot: h.slot })
    }

    fn any_addr(&mut self, w: &World) -> Addr {
        let r = &mut self.r;
        match r.below(14) {
            0..=2 => match self.some_report(w) {
                Some(a) => a,
                None => Addr::Person(0),
            },
            3..=4 => match self.known.last() {
                Some(k) => Addr::Report {
                    node: k.node,
                    slot: k.slot,
                },
                None => Addr::Fresh(1),
            },
            5 => Addr::Person(r.below(PEOPLE as u64) as u8),
            6..=7 => Addr::Junk(r.below(4) as u8),
            8 => Addr::Fresh(r.below(6) as u8),
            9 => Addr::Clock,
            10 => Addr::InstructionsSysvar,
            11 => Addr::System,
            12 => Addr::Slashing,
            _ => Addr::Node(r.below(4) as u8),
        }
    }

    fn addr_of(&self, w: &World, k: &Pubkey) -> Option<Addr> {
        let mut all: Vec<Addr> = (0..PEOPLE).map(Addr::Person).collect();
        all.extend((0..=NODES).map(Addr::Node));
        all.extend((0..6).map(Addr::Fresh));
        all.extend((0..4).map(Addr::Junk));
        all.extend([Addr::Minimal, Addr::Clock, Addr::System, Addr::Default, Addr::Slashing]);
        for e in &self.known {
            all.push(Addr::Report {
                node: e.node,
                slot: e.slot,
            });
        }
        all.into_iter().find(|a| w.addr(*a) == *k)
    }

    fn close(&mut self, w: &World) -> CloseOp {
        let report = if self.r.pct(85) {
            self.some_report(w)
        } else {
            None
        };
        let report = match report {
            Some(a) => a,
            None => self.any_addr(w),
        };
        let right = w
            .model
            .reports
            .get(&w.addr(report))
            .and_then(|r| self.addr_of(w, &r.header.destination));
        let dest = match right {
            Some(a) if self.r.pct(80) => a,
            _ => {
                if self.r.pct(15) {
                    report
                } else {
                    self.any_addr(w)
                }
            }
        };
        let r = &mut self.r;
        CloseOp {
            report,
            dest,
            nested: r.pct(8),
            dest_readonly: r.pct(3),
            extra: r.pct(3),
            trailing: if r.pct(3) { r.range(1, 40) as u8 } else { 0 },
        }
    }

    fn raw(&mut self, w: &World) -> Step {
        let n = self.r.below(7) as usize;
        let mut accounts: Vec<(Addr, bool)> = (0..n)
            .map(|_| {
                let a = self.any_addr(w);
                (a, self.r.coin())
            })
            .collect();
        let r = &mut self.r;
        let len = *r.pick(&[0usize, 1, 1, 2, 17, 304, 305, 305, 305, 306, 400]);
        let mut data = vec![0u8; len];
        if r.coin() {
            r.fill(&mut data);
        }
        if !data.is_empty() {
            data[0] = *r.pick(&[0, 0, 1, 1, 1, 2, 3, 255]);
        }
        if data.len() == 305 && r.pct(70) {
            data[1..9].copy_from_slice(&r.pick(&[0u64, 1, 33, 1 << 20, u64::MAX]).to_le_bytes());
            let s = w.slot().wrapping_sub(r.below(10));
            data[9..17].copy_from_slice(&s.to_le_bytes());
            while accounts.len() < 4 {
                accounts.push((Addr::Record, false));
            }
            if r.pct(85) {
                accounts[2] = (Addr::InstructionsSysvar, false);
                accounts[3] = (Addr::System, false);
                accounts[1].1 = true;
            }
        }
        let with_sig = r.pct(50).then(|| {
            let mut d = vec![0u8; *r.pick(&[2usize, 2, 16, 30, 30, 44])];
            if r.coin() {
                r.fill(&mut d);
            }
            d[0] = r.below(4) as u8 % 3;
            if d[0] == 0 && r.pct(80) {
                d.truncate(2);
            }
            d
        });
        Step::Raw {
            data,
            accounts,
            with_sig,
        }
    }

    fn clock(&mut self, w: &World) -> Op {
        let n = w.cfg.slots_per_epoch;
        let now = w.slot();
        let e = w.bank.epoch();
        match self.r.below(10) {
            0..=3 => Op::Slots(self.r.range(1, 4)),
            4..=5 => {
                // To the edge of some held evidence's window.
                if let Some(k) = self.known.get(self.r.idx(self.known.len().max(1))) {
                    let edge = k.slot.saturating_add(n);
                    let t = match self.r.below(4) {
                        0 => edge.saturating_sub(1),
                        1 => edge.saturating_add(1),
                        2 => k.slot,
                        _ => edge,
                    };
                    if t > now && t - now < 4 * n {
                        return Op::Slots(t - now);
                    }
                }
                Op::Slots(self.r.range(1, n))
            }
            6..=8 => {
                // To the edge of some report's lock.
                let i = self.r.idx(w.model.reports.len().max(1));
                if let Some(r) = w.model.reports.values().nth(i) {
                    let target = r.header.epoch + 3;
                    if self.r.pct(6) {
                        // So old that shorter counters begin anew.
                        let age = (1u64 << *self.r.pick(&[8u32, 16, 32])) + self.r.below(4);
                        let to = r.header.epoch.saturating_add(age);
                        if to > e {
                            return Op::Epochs(to - e, self.r.below(n));
                        }
                    }
                    if target > e {
                        let first = target - e;
                        return match self.r.below(4) {
                            0 if first > 1 => Op::Epochs(first - 1, n - 1),
                            1 if first > 1 => Op::Epochs(first - 1, 0),
                            2 => Op::Epochs(first, self.r.below(n)),
                            _ => Op::Epochs(first, 0),
                        };
                    }
                }
                Op::Epochs(1, self.r.below(n))
            }
            _ if self.r.pct(6) => Op::Slots(1 << *self.r.pick(&[16u32, 32, 32, 33])),
            _ => Op::Epochs(self.r.range(1, 3), *self.r.pick(&[0, 1, n / 2, n - 1])),
        }
    }

    fn tx(&mut self, steps: Vec<Step>) -> TxOp {
        let faults = self.p.faults;
        let r = &mut self.r;
        let mut t = TxOp {
            steps,
            payer: if r.pct(6) { POOR } else { r.below(PEOPLE as u64 - 1) as u8 },
            crash: None,
            copies: vec![0],
            age: 0,
        };
        if r.pct(faults) {
            match r.below(8) {
                0 => t.copies = vec![],
                1..=2 => t.copies = vec![r.range(1, 8) as u8],
                3 => t.copies = vec![0, r.range(0, 10) as u8],
                4 => t.age = *r.pick(&[1, 5, 149, 150, 151, 200]),
                _ => {
                    t.crash = Some(CrashPlan {
                        at: r.below(7) as u32,
                        kind: *r.pick(&[
                            CrashKind::OutOfCompute,
                            CrashKind::OutOfCompute,
                            CrashKind::SysvarUnavailable,
                            CrashKind::SysvarUnavailable,
                            CrashKind::CpiFailsBefore,
                            CrashKind::AbortAfterCpi,
                        ]),
                    })
                }
            }
        }
        t
    }

    pub fn next(&mut self, w: &World) -> Op {
        match self.r.weighted(&self.p.weights.clone()) {
            0 => {
                let s = Step::Report(self.report(w));
                Op::Tx(self.tx(vec![s]))
            }
            1 => {
                let s = Step::Report(self.attack(w));
                Op::Tx(self.tx(vec![s]))
            }
            2 => {
                let s = Step::Close(self.close(w));
                Op::Tx(self.tx(vec![s]))
            }
            3 => {
                let to = self.any_addr(w);
                let lamports = match self.r.below(4) {
                    0 => w.bank.rent.minimum_balance(0),
                    1 => w.bank.rent.minimum_balance(2528),
                    2 => w.bank.rent.minimum_balance(2528) + self.r.below(1000),
                    _ => w.bank.rent.minimum_balance(0) + self.r.below(1 << 34),
                };
                let s = Step::Transfer { to, lamports };
                Op::Tx(self.tx(vec![s]))
            }
            4 => {
                let s = self.raw(w);
                Op::Tx(self.tx(vec![s]))
            }
            5 => self.clock(w),
            6 => Op::Fork(self.r.below(6) as u8),
            7 => {
                let step = match self.r.below(10) {
                    0..=5 => Step::Report(self.report(w)),
                    6 => Step::Report(self.attack(w)),
                    _ => Step::Close(self.close(w)),
                };
                let mut t = self.tx(vec![step]);
                t.crash = None;
                Op::CrashSweep(t)
            }
            _ => {
                let n = self.r.range(2, 3);
                let mut steps = vec![];
                for _ in 0..n {
                    steps.push(match self.r.below(8) {
                        0..=1 => Step::Report(self.report(w)),
                        2..=4 => Step::Close(self.close(w)),
                        5 => {
                            let to = self.any_addr(w);
                            Step::Transfer {
                                to,
                                lamports: w.bank.rent.minimum_balance(0) + self.r.below(1 << 30),
                            }
                        }
                        6 => Step::Budget,
                        _ => {
                            if self.r.pct(30) {
                                Step::Fail
                            } else {
                                Step::Budget
                            }
                        }
                    });
                }
                Op::Tx(self.tx(steps))
            }
        }
    }

    /// The quiet end of a run: faults have stopped; everything still reportable is reported and
    /// everything closable is closed.
    /// Faults have stopped: everything still in the window must be recordable.
    pub fn settle(&mut self, w: &World) -> Vec<Op> {
        let now = w.slot();
        let n = w.cfg.slots_per_epoch;
        self.known
            .iter()
            .filter(|e| e.slot <= now && now - e.slot <= n)
            .take(6)
            .map(|e| quiet(Step::Report(plain_report(e))))
            .collect()
    }

    /// Three epochs later: everything recorded must be closable, and nothing can come back.
    pub fn close_out(&mut self, w: &World) -> Vec<Op> {
        let mut out = vec![Op::Epochs(3, 0)];
        let last = w.model.reports.values().map(|r| r.header.epoch).max();
        if let (Some(last), true) = (last, self.r.pct(12)) {
            // So much later that shorter counters begin anew.
            let to = last.saturating_add((1u64 << *self.r.pick(&[8u32, 16, 16, 32])) + self.r.below(3));
            out = vec![Op::Epochs(to.saturating_sub(w.bank.epoch()).max(3), 0)];
        }
        for r in w.model.reports.values().take(8) {
            let h = &r.header;
            let (Some(node), Some(dest)) = (
                (0..=NODES).find(|k| w.node(*k) == h.node),
                self.addr_of(w, &h.destination),
            ) else {
                continue;
            };
            let report = Addr::Report { node, slot: h.slot };
            out.push(quiet(Step::Close(CloseOp {
                report,
                dest,
                nested: false,
                dest_readonly: false,
                extra: false,
                trailing: 0,
            })));
            if let Some(e) = self.known.iter().find(|e| e.slot == h.slot && e.node == node) {
                out.push(quiet(Step::Report(plain_report(e))));
            }
        }
        out
    }
}

fn plain_report(e: &Evidence) -> ReportOp {
    ReportOp {
        ev: e.clone(),
        reporter: 1,
        dest: Addr::Person(1),
        form: Form::Canonical,
        proof: ProofForm::NORMAL,
        twist: Twist::None,
    }
}
fn quiet(step: Step) -> Op {
    Op::Tx(TxOp {
        steps: vec![step],
        payer: 1,
        crash: None,
        copies: vec![0],
        age: 0,
    })
}
