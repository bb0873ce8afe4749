//! Schedules for the client family, shaped per property.
use crate::{
    cli_world::*,
    evidence::KINDS,
    rng::Rng,
};

struct Gen {
    r: Rng,
    cfg: Config,
    /// Where the chain roughly is.
    slot: u64,
    dups: Vec<Dup>,
    reported: Vec<Dup>,
    used: std::collections::BTreeSet<u64>,
}

pub fn case(property: &str, seed: u64) -> (Config, Vec<Op>) {
    let mut r = Rng::derive(seed, property);
    let ledger_only = matches!(property, "C05" | "C06" | "C07");
    let spe = if ledger_only { *r.pick(&[32, 64, 432, 8192]) } else { *r.pick(&[600, 2000, 8192, 8192, 432_000]) };
    let epoch = *r.pick(&[0, 1, 3, 4, 10, 500]).max(&u64::from(!ledger_only));
    let start = epoch * spe + if ledger_only { r.below(spe) } else { r.range(300.min(spe - 1), spe - 1) };
    let cfg = Config {
        seed: r.u64(),
        slots_per_epoch: spe,
        start_slot: start,
        rent: *r.pick(&[3480, 3480, 3480, 1, 20_000]),
        lag: *r.pick(&[0, 1, 2, 2, 5, 31]),
        payer_lamports: 1_000_000_000_000_000,
        checked: Rng::derive(seed, "build").pct(30),
    };
    let mut g = Gen { r, cfg, slot: start, dups: vec![], reported: vec![], used: Default::default() };
    let ops = match property {
        "C01" => g.c01(),
        "C02" => g.c02(false),
        "C03" => g.c02(true),
        "C04" => g.c04(),
        "C05" => g.reports(false, 60),
        "C06" => g.reports(true, 50),
        "C07" => g.reports(false, 0),
        "C08" => g.c08(),
        _ => g.c09(),
    };
    (g.cfg, ops)
}

impl Gen {
    fn dup(&mut self, odd: u64) -> Dup {
        let r = &mut self.r;
        let spe = self.cfg.slots_per_epoch;
        let kind = if r.pct(odd) {
            match r.below(6) {
                0 => DupKind::Honest,
                1 => DupKind::WrongSigner,
                2 => DupKind::Torn(*r.pick(&[0, 1, 40, 63, 64, 65, 82, 83, 88, 500, 1100, 1202])),
                3 => DupKind::Torn(r.below(1203) as u16),
                4 => DupKind::Garbage(*r.pick(&[0, 1, 63, 64, 65, 88, 100, 1203, 1228])),
                _ => DupKind::Garbage(r.below(1300) as u16),
            }
        } else {
            DupKind::Genuine(*r.pick(&KINDS))
        };
        let slot = loop {
            let back = match r.below(20) {
                0 => spe + r.range(1, 60),
                1 => spe.saturating_sub(r.below(400)),
                2 => r.below(spe),
                // Another epoch, whose leaders nobody remembers.
                3 => spe * r.range(2, 7),
                _ => r.range(1, 120.min(spe)),
            };
            let s = self.slot.saturating_sub(back);
            let s = if r.pct(3) { self.slot + r.below(2000) } else { s };
            if self.used.insert(s) {
                break s;
            }
        };
        Dup { slot, kind, seed: r.u64() }
    }
    /// Surely recordable for the rest of the run.
    fn good(&mut self) -> Dup {
        loop {
            let kind = DupKind::Genuine(*self.r.pick(&KINDS));
            let slot = self.slot.saturating_sub(self.r.range(1, 200.min(self.cfg.slots_per_epoch)));
            if self.used.insert(slot) {
                return Dup { slot, kind, seed: self.r.u64() };
            }
        }
    }
    fn person(&mut self) -> u8 {
        self.r.range(1, PEOPLE as u64 - 1) as u8
    }
    fn ledger(&mut self, ops: &mut Vec<Op>, n: u64, odd: u64) {
        for _ in 0..n {
            let d = self.dup(odd);
            self.dups.push(d);
            ops.push(Op::Env(Env::Dup(d)));
        }
    }
    fn by_others(&mut self, ops: &mut Vec<Op>, pct: u64) {
        for d in self.dups.clone() {
            if self.r.pct(pct) {
                let dest = Dest::Person(self.person());
                let reporter = self.person();
                let mut d = d;
                if self.r.pct(25) {
                    // Somebody else was seen signing for that slot: another violation.
                    d.kind = DupKind::WrongSigner;
                }
                ops.push(Op::Env(Env::Report { dup: d, reporter, dest, pad: 0 }));
            }
        }
        if self.r.pct(15) && !self.dups.is_empty() {
            let slot = self.r.pick(&self.dups).slot;
            let lamports = *self.r.pick(&[1, 1_000_000, 50_000_000]);
            ops.push(Op::Env(Env::Donate { slot, lamports }));
        }
    }
    fn bound(&mut self) -> Option<u64> {
        if self.r.pct(60) {
            return None;
        }
        let slot = if self.dups.is_empty() || self.r.pct(15) { self.slot.saturating_sub(self.r.below(200)) } else { self.r.pick(&self.dups).slot };
        Some(match self.r.below(5) {
            0 => slot + 1,
            1 => slot.saturating_sub(1),
            _ => slot,
        })
    }
    fn out(&mut self) -> Out {
        *self.r.pick(&[Out::Display, Out::Display, Out::Verbose, Out::Json, Out::JsonCompact])
    }
    fn inst(&mut self, cmd: Cmd) -> Inst {
        Inst {
            cmd,
            out: Out::Display,
            dry_run: false,
            payer2: self.r.pct(20),
            start_ms: 0,
            jitter: if self.r.pct(70) { self.r.range(1, u64::MAX - 1) } else { 0 },
            faults: vec![],
            env: vec![],
            crash: None,
        }
    }
    fn attach(&mut self, bounds: bool) -> Inst {
        let (mut start, mut end) = (None, None);
        if bounds {
            start = self.bound();
            end = self.bound();
        }
        let reporter = if self.r.coin() { None } else { Some(self.person()) };
        let dest = if self.r.coin() { None } else { Some(self.person()) };
        self.inst(Cmd::Attach { start, end, reporter, dest, continuous: None, horizon: 0 })
    }

    fn fault(&mut self) -> Fault {
        match self.r.below(12) {
            0 | 1 => Fault::DropRequest,
            2 | 3 => Fault::DropReply,
            4 => Fault::Unhealthy,
            5 => Fault::RateLimited,
            6 => Fault::Behind,
            7 | 8 => Fault::TxLost,
            9 => Fault::TxDelay(*self.r.pick(&[1_000, 10_000, 40_000, 70_000])),
            10 => Fault::TxTwice,
            _ => Fault::Stall(*self.r.pick(&[2_000, 20_000, 90_000])),
        }
    }
    fn sel(&mut self, attach: bool) -> Sel {
        let n = self.dups.len().max(1) as u64;
        if attach {
            match self.r.below(14) {
                0 => Sel::Call(Kind::Leaders, self.r.below(n) as u32),
                1 => Sel::Call(Kind::Account, self.r.below(2 * n + 1) as u32),
                2 => Sel::Call(Kind::Blockhash, self.r.below(7 * n) as u32),
                3 | 4 => Sel::Call(Kind::Create, self.r.below(n) as u32),
                5 => Sel::Call(Kind::Write, self.r.below(4 * n) as u32),
                6 | 7 => Sel::Call(Kind::Report, self.r.below(n) as u32),
                8 | 9 => Sel::Call(Kind::CloseEvidence, self.r.below(n) as u32),
                10 => Sel::Call(Kind::Status, self.r.below(20 * n) as u32),
                _ => Sel::Index(self.r.below(30 * n + 5) as u32),
            }
        } else {
            match self.r.below(6) {
                0 => Sel::Call(Kind::Programs, 0),
                1 => Sel::Call(Kind::CloseReport, self.r.below(4) as u32),
                2 => Sel::Call(Kind::Blockhash, self.r.below(4) as u32),
                _ => Sel::Index(self.r.below(15) as u32),
            }
        }
    }
    fn faults(&mut self, i: &mut Inst, max: u64) {
        let attach = matches!(i.cmd, Cmd::Attach { .. });
        match self.r.below(6) {
            0 => {
                // An outage.
                let n = self.dups.len().max(1) as u64;
                let at = self.r.below(30 * n) as u32;
                let f = *self.r.pick(&[Fault::DropRequest, Fault::Unhealthy, Fault::RateLimited]);
                for k in 0..self.r.range(2, 12) as u32 {
                    i.faults.push((Sel::Index(at + k), f));
                }
            }
            _ => {
                for _ in 0..self.r.range(1, max) {
                    let s = self.sel(attach);
                    let f = self.fault();
                    i.faults.push((s, f));
                }
            }
        }
    }
    /// The node has trouble simulating transactions, once or always.
    fn no_simulation(&mut self, i: &mut Inst) {
        if self.r.pct(40) {
            let f = self.fault();
            let n = self.r.below(8) as u32;
            let always = self.r.coin();
            for k in if always { 0..14 } else { n..n + 1 } {
                i.faults.push((Sel::Call(Kind::Simulate, k), f));
            }
        }
    }
    /// Something happens while the instance works.
    fn meddle(&mut self, i: &mut Inst, fork: bool) {
        let sel = self.sel(true);
        let at = At::Request(sel);
        let pick = if self.dups.is_empty() { None } else { Some(*self.r.pick(&self.dups)) };
        let e = match (self.r.below(10), pick) {
            (0..=4, Some(dup)) => Env::Report { dup, reporter: self.person(), dest: Dest::Person(self.person()), pad: 0 },
            (5, Some(d)) => Env::Donate { slot: d.slot, lamports: *self.r.pick(&[1, 5_000_000, 100_000_000]) },
            (6 | 7, _) if fork => Env::Fork { reforward: self.r.coin() },
            (8, _) => Env::Slots(self.r.range(1, 140)),
            _ => {
                let d = self.dup(20);
                self.dups.push(d);
                Env::Dup(d)
            }
        };
        i.env.push((at, e));
    }

    fn c01(&mut self) -> Vec<Op> {
        let mut ops = vec![];
        let n = if self.r.pct(3) { self.r.range(7, 24) } else { self.r.range(1, 6) };
        self.ledger(&mut ops, n, 12);
        self.by_others(&mut ops, 20);
        for k in 0..self.r.range(1, 2) {
            if k > 0 {
                let n = self.r.below(3);
                self.ledger(&mut ops, n, 10);
                if self.r.pct(30) {
                    ops.push(Op::Env(Env::Slots(self.r.range(1, 400))));
                }
            }
            let mut i = self.attach(true);
            i.out = self.out();
            if self.r.pct(20) {
                // What is already on chain cannot be read for a while.
                let at = self.r.below(5) as u32;
                let f = *self.r.pick(&[Fault::DropRequest, Fault::DropReply, Fault::Unhealthy, Fault::RateLimited]);
                for k in 0..self.r.range(1, 4) as u32 {
                    i.faults.push((Sel::Call(Kind::Account, at + k), f));
                }
            }
            ops.push(Op::Run(vec![i]));
        }
        ops
    }

    /// Faults of every kind; `closing` aims them at the end of the scan.
    fn c02(&mut self, closing: bool) -> Vec<Op> {
        let mut ops = vec![];
        let n = self.r.range(2, 5);
        self.ledger(&mut ops, n, if closing { 15 } else { 30 });
        self.by_others(&mut ops, 15);
        if self.r.pct(12) {
            let rent = self.cfg.rent;
            let unit = (128 + 2500) * rent * 2 + 50_000;
            let l = self.r.below(unit * 4);
            ops.push(Op::Env(Env::Balance(l)));
        }
        let runs = self.r.range(1, 2);
        for _ in 0..runs {
            let bounds = self.r.pct(30);
            let mut i = self.attach(bounds);
            i.out = if self.r.pct(75) { Out::Display } else { Out::Verbose };
            if self.r.pct(85) {
                self.faults(&mut i, 4);
            }
            if closing && self.r.pct(60) {
                let n = self.dups.len() as u64;
                let f = self.fault();
                i.faults.push((Sel::Call(Kind::CloseEvidence, self.r.below(n) as u32), f));
            }
            if self.r.pct(30) {
                self.meddle(&mut i, true);
            }
            ops.push(Op::Run(vec![i]));
        }
        ops
    }

    fn c04(&mut self) -> Vec<Op> {
        let mut ops = vec![];
        match self.r.below(3) {
            0 => {
                let n = self.r.range(1, 3);
                self.ledger(&mut ops, n, 15);
                self.by_others(&mut ops, 20);
                if self.r.pct(30) {
                    // A real run before the dry one.
                    let i = self.attach(false);
                    ops.push(Op::Run(vec![i]));
                    self.ledger(&mut ops, 1, 10);
                }
                let mut i = self.attach(true);
                i.dry_run = true;
                i.out = self.out();
                if self.r.pct(50) {
                    self.faults(&mut i, 3);
                }
                self.no_simulation(&mut i);
                if self.r.pct(15) {
                    let s = self.sel(true);
                    i.crash = Some((s, self.r.coin()));
                }
                if self.r.pct(15) {
                    if let Cmd::Attach { end, continuous, horizon, .. } = &mut i.cmd {
                        *end = None;
                        *continuous = Some(30);
                        *horizon = 100;
                    }
                }
                ops.push(Op::Run(vec![i]));
            }
            _ => {
                let n = self.r.range(1, 5);
                self.fill(&mut ops, n, false);
                if self.r.pct(20) {
                    let n = self.r.range(1, 2);
                    self.junk(&mut ops, n);
                }
                ops.push(Op::Env(Env::Epochs(self.r.range(1, 4))));
                let mut i = self.close_cmd(false);
                i.dry_run = true;
                i.out = self.out();
                if self.r.pct(40) {
                    self.faults(&mut i, 2);
                }
                self.no_simulation(&mut i);
                let mut v = vec![i];
                if self.r.pct(20) {
                    let mut d = self.display_cmd();
                    d.dry_run = true;
                    v.push(d);
                }
                ops.push(Op::Run(v));
            }
        }
        ops
    }

    /// Reports by various reporters at various epochs.
    fn fill(&mut self, ops: &mut Vec<Op>, n: u64, odd: bool) {
        for _ in 0..n {
            // Evidence must be of the present epoch's worth of slots.
            let spe = self.cfg.slots_per_epoch;
            let back = self.r.range(0, (spe - 8).min(100));
            let slot = self.slot.saturating_sub(back);
            if !self.used.insert(slot) {
                continue;
            }
            let kind = if self.r.pct(20) { DupKind::WrongSigner } else { DupKind::Genuine(*self.r.pick(&KINDS)) };
            let d = Dup { slot, kind, seed: self.r.u64() };
            let dest = if odd && self.r.pct(20) { Dest::Unpayable(self.r.below(3) as u8) } else { Dest::Person(self.r.range(1, 4) as u8) };
            let reporter = self.r.range(1, 3) as u8;
            let pad = if odd && self.r.pct(25) { *self.r.pick(&[1, 25, 40]) } else { 0 };
            ops.push(Op::Env(Env::Report { dup: d, reporter, dest, pad }));
            self.reported.push(d);
            if self.r.pct(15) {
                // Somebody else was seen signing for the same slot.
                let kind = if kind == DupKind::WrongSigner { DupKind::Genuine(*self.r.pick(&KINDS)) } else { DupKind::WrongSigner };
                let dup = Dup { slot, kind, seed: self.r.u64() };
                let (reporter, dest) = (self.r.range(1, 3) as u8, Dest::Person(self.r.range(1, 4) as u8));
                ops.push(Op::Env(Env::Report { dup, reporter, dest, pad: 0 }));
            }
            if self.r.pct(12) {
                ops.push(Op::Env(Env::Donate { slot, lamports: *self.r.pick(&[1_000_000, 7_777_777]) }));
            }
            if self.r.pct(if n > 10 { 4 } else { 25 }) {
                self.jump(ops, 1);
            }
        }
    }
    fn jump(&mut self, ops: &mut Vec<Op>, n: u64) {
        let spe = self.cfg.slots_per_epoch;
        self.slot = (self.slot / spe + n) * spe + 8;
        ops.push(Op::Env(Env::Epochs(n)));
        ops.push(Op::Env(Env::Slots(9)));
    }
    fn junk(&mut self, ops: &mut Vec<Op>, n: u64) {
        for _ in 0..n {
            let id = self.r.below(8) as u8;
            let len = *self.r.pick(&[0, 1, 2, 64, 113, 114, 115, 122, 500, 2600, 5000]);
            ops.push(Op::Env(Env::Junk { id, len, extra: self.r.below(3) }));
        }
    }
    fn close_cmd(&mut self, odd: bool) -> Inst {
        let report = if self.r.pct(20) {
            if odd && self.r.pct(30) {
                Some(Target::Junk(self.r.below(8) as u8))
            } else if let Some(d) = self.reported.get(self.r.idx(self.reported.len().max(1))) {
                Some(Target::Slot(d.slot))
            } else {
                None
            }
        } else {
            None
        };
        let node = self.r.pct(25).then(|| self.r.below(NODES as u64) as u8);
        let reporter = self.r.pct(25).then(|| self.r.range(1, 3) as u8);
        let dest = self.r.pct(25).then(|| {
            if odd && self.r.pct(30) {
                Dest::Unpayable(self.r.below(3) as u8)
            } else {
                Dest::Person(self.r.range(1, 4) as u8)
            }
        });
        let mut i = self.inst(Cmd::Close { report, node, reporter, dest });
        i.out = self.out();
        i
    }
    fn display_cmd(&mut self) -> Inst {
        let e = self.slot / self.cfg.slots_per_epoch;
        let epoch = self.r.pct(30).then(|| e.saturating_sub(self.r.below(4)));
        let node = self.r.pct(25).then(|| self.r.below(NODES as u64) as u8);
        let reporter = self.r.pct(25).then(|| self.r.range(1, 3) as u8);
        let mut i = self.inst(Cmd::Display { epoch, node, reporter });
        i.out = self.out();
        i
    }
    /// Close and display over a population of reports.
    fn reports(&mut self, odd: bool, closes: u64) -> Vec<Op> {
        let mut ops = vec![];
        for _ in 0..self.r.range(1, 3) {
            let n = if self.r.pct(2) { self.r.range(12, 70) } else { self.r.range(1, 5) };
            self.fill(&mut ops, n, odd);
            if odd {
                let n = self.r.range(0, 2);
                self.junk(&mut ops, n);
            }
            match self.r.below(5) {
                0 => self.jump(&mut ops, 1),
                1 => self.jump(&mut ops, 2),
                2 => self.jump(&mut ops, 3),
                3 => self.jump(&mut ops, 4),
                // So late that shorter counters begin anew.
                _ if self.r.pct(10) => {
                    let n = (1 << *self.r.pick(&[8, 16])) + self.r.below(4);
                    self.jump(&mut ops, n)
                }
                _ => {}
            }
            for _ in 0..self.r.range(1, 3) {
                let mut i = if self.r.pct(closes) { self.close_cmd(odd) } else { self.display_cmd() };
                if self.r.pct(15) {
                    self.faults(&mut i, 2);
                }
                // Somebody closes one of them at the same time.
                if self.r.pct(20) && !self.reported.is_empty() {
                    let slot = self.r.pick(&self.reported).slot;
                    let sel = self.sel(false);
                    i.env.push((At::Request(sel), Env::Close { slot }));
                }
                if self.r.pct(8) {
                    i.env.push((At::Request(Sel::Index(self.r.below(8) as u32)), Env::Fork { reforward: self.r.coin() }));
                }
                // An epoch begins meanwhile, and somebody reports in it.
                if self.r.pct(12) {
                    let at = At::Request(if self.r.coin() { Sel::Call(Kind::Programs, 0) } else { self.sel(false) });
                    self.jump(&mut ops, 1);
                    let slot = self.slot - self.r.below(8);
                    let jump = ops.split_off(ops.len() - 2);
                    i.env.extend(jump.into_iter().filter_map(|o| if let Op::Env(e) = o { Some((at, e)) } else { None }));
                    if self.used.insert(slot) {
                        let dup = Dup { slot, kind: DupKind::Genuine(*self.r.pick(&KINDS)), seed: self.r.u64() };
                        self.reported.push(dup);
                        i.env.push((at, Env::Report { dup, reporter: self.r.range(1, 3) as u8, dest: Dest::Person(1), pad: 0 }));
                        let n = if self.cfg.slots_per_epoch > 32 && self.r.coin() { 33 } else { 3 };
                        i.env.push((at, Env::Slots(n)));
                        self.slot += n;
                    }
                }
                let mut v = vec![i];
                if self.r.pct(12) {
                    v.push(if self.r.pct(closes) { self.close_cmd(odd) } else { self.display_cmd() });
                }
                ops.push(Op::Run(v));
            }
        }
        ops
    }

    fn c08(&mut self) -> Vec<Op> {
        let mut ops = vec![];
        for _ in 0..self.r.range(1, 3) {
            let d = if self.r.pct(80) { self.good() } else { self.dup(20) };
            self.dups.push(d);
            ops.push(Op::Env(Env::Dup(d)));
        }
        for _ in 0..self.r.range(1, 2) {
            let mut v = vec![];
            for k in 0..*self.r.pick(&[1, 1, 2, 2, 3]) {
                let bounds = self.r.pct(20);
                let mut i = self.attach(bounds);
                i.payer2 = self.r.coin();
                i.start_ms = if k == 0 { 0 } else { *self.r.pick(&[0, 1, 30, 500, 3000, 15000]) };
                if self.r.pct(60) {
                    i.crash = Some((self.sel(true), self.r.coin()));
                }
                if self.r.pct(40) {
                    self.faults(&mut i, 3);
                }
                if self.r.pct(25) {
                    self.meddle(&mut i, true);
                }
                v.push(i);
            }
            ops.push(Op::Run(v));
        }
        // Faults stop: whatever is in flight expires, the payer is solvent, one more run.
        ops.push(Op::Env(Env::Slots(160)));
        ops.push(Op::Env(Env::Balance(1_000_000_000_000_000)));
        let mut i = self.attach(false);
        i.payer2 = false;
        ops.push(Op::Run(vec![i]));
        ops
    }

    fn c09(&mut self) -> Vec<Op> {
        let mut ops = vec![];
        self.cfg.slots_per_epoch = self.cfg.slots_per_epoch.max(8192);
        self.cfg.start_slot = self.cfg.slots_per_epoch * 5 + 1000;
        self.slot = self.cfg.start_slot;
        let n = self.r.below(3);
        for _ in 0..n {
            let d = if self.r.pct(75) { self.good() } else { self.dup(40) };
            self.dups.push(d);
            ops.push(Op::Env(Env::Dup(d)));
        }
        let interval = *self.r.pick(&[5, 60, 60, 300, 600]);
        let scans = self.r.range(2, 4);
        let long = self.cfg.slots_per_epoch > 100_000 && self.r.pct(20);
        let (n, secs) = if long { (0, 4 * 3600) } else { (interval, interval) };
        let horizon = secs * scans + 40;
        let reporter = if self.r.coin() { None } else { Some(self.person()) };
        let start = if self.r.pct(20) { Some(self.slot.saturating_sub(100)) } else { None };
        let mut i = self.inst(Cmd::Attach { start, end: None, reporter, dest: None, continuous: Some(n), horizon });
        i.payer2 = false;
        i.out = if self.r.pct(80) { Out::Display } else { Out::Json };
        // Duplicates appear while it watches.
        let mut at = 0;
        let mut slot = self.slot + 1;
        for _ in 0..self.r.range(1, 3) {
            at += self.r.range(1000, secs * 1000 * scans / 2);
            if at > horizon * 1000 {
                break;
            }
            slot = match self.dups.iter().map(|d| d.slot).max() {
                // Right behind the last one.
                Some(m) if self.r.pct(25) => m + 1,
                _ => slot.max(self.slot + at / 400),
            } - if self.r.pct(20) { self.r.below(1500).min(slot - 1) } else { 0 };
            if !self.used.insert(slot) {
                continue;
            }
            let kind = if self.r.pct(85) { DupKind::Genuine(*self.r.pick(&KINDS)) } else { DupKind::Torn(self.r.below(1200) as u16) };
            let d = Dup { slot, kind, seed: self.r.u64() };
            self.dups.push(d);
            i.env.push((At::Ms(at), Env::Dup(d)));
            slot += 1;
        }
        if self.r.pct(60) {
            for _ in 0..self.r.range(1, 3) {
                let s = match self.r.below(4) {
                    0 => Sel::Call(Kind::CloseEvidence, self.r.below(2) as u32),
                    1 => Sel::Call(Kind::Report, self.r.below(2) as u32),
                    2 => Sel::Call(Kind::Create, self.r.below(3) as u32),
                    _ => self.sel(true),
                };
                let f = self.fault();
                i.faults.push((s, f));
            }
        }
        if self.r.pct(15) && !self.dups.is_empty() {
            let dup = *self.r.pick(&self.dups);
            i.env.push((At::Request(self.sel(true)), Env::Report { dup, reporter: 3, dest: Dest::Person(3), pad: 0 }));
        }
        ops.push(Op::Run(vec![i]));
        ops
    }
}
