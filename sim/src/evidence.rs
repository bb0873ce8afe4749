//! Pieces of evidence as data: what was signed by whom, and what a third party then did to it.
use {
    crate::{
        model::{self, Conflict},
        rng::Rng,
        shredgen::{self, HonestBlock, ShredSpec, Signed},
    },
    serde_derive::{Deserialize, Serialize},
    solana_sdk::signature::Keypair,
};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Source {
    /// Two freely specified shreds.
    Pair {
        a: ShredSpec,
        b: ShredSpec,
        same_tree: bool,
        tree: u64,
        signer_a: u8,
        signer_b: u8,
    },
    /// Two shreds (perhaps the same) of one consistent block.
    Honest {
        block: HonestBlock,
        i: usize,
        j: usize,
        signer: u8,
    },
}

/// What a third party does to the bytes after signing.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Mut {
    Append { which: u8, n: u16, seed: u64 },
    Truncate { which: u8, len: u16 },
    /// Filled up to this length.
    PadTo { which: u8, len: u16, seed: u64 },
    Flip { which: u8, at: u16, bits: u8 },
    /// New retransmitter signature on resigned shreds.
    Retransmit { which: u8, seed: u64 },
    /// The signature field is replaced: by the claimed node's genuine signature over another
    /// message (`other`), or by garbage.
    Signature { which: u8, other: bool },
    /// The evidence is altered while the submission still claims what was there before.
    Tamper { which: u8, at: u16, bits: u8 },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Evidence {
    /// Node and slot the submission accuses.
    pub node: u8,
    pub slot: u64,
    pub src: Source,
    pub muts: Vec<Mut>,
    pub swap: bool,
}

#[derive(Clone)]
pub struct Built {
    pub shred: [Vec<u8>; 2],
    /// What the submitter claims was signed.
    pub root: [[u8; 32]; 2],
    pub sig: [[u8; 64]; 2],
}

/// A message the node signed in some other context, with its signature.
pub fn unrelated_message(seed: u64, node: u8) -> [u8; 32] {
    model::sha(&[b"unrelated", &seed.to_le_bytes(), &[node]])
}

impl Evidence {
    pub fn build(&self, keys: &[Keypair], seed: u64) -> Built {
        let key = |i: u8| &keys[(i as usize) % keys.len()];
        let (a, b): (Signed, Signed) = match &self.src {
            Source::Pair {
                a,
                b,
                same_tree,
                tree,
                signer_a,
                signer_b,
            } => shredgen::build_pair(a, b, *same_tree, *tree, key(*signer_a), key(*signer_b)),
            Source::Honest {
                block,
                i,
                j,
                signer,
            } => {
                let n = block.len();
                (
                    block.shred(i % n, key(*signer)),
                    block.shred(j % n, key(*signer)),
                )
            }
        };
        let mut shred = [a.payload, b.payload];
        let mut root = [a.root, b.root];
        for m in &self.muts {
            match m {
                Mut::Append { which, n, seed } => {
                    let s = &mut shred[(*which & 1) as usize];
                    let old = s.len();
                    s.resize(old + *n as usize, 0);
                    Rng::new(*seed).fill(&mut s[old..]);
                }
                Mut::PadTo { which, len, seed } => {
                    let s = &mut shred[(*which & 1) as usize];
                    let old = s.len();
                    if old < *len as usize {
                        s.resize(*len as usize, 0);
                        Rng::new(*seed).fill(&mut s[old..]);
                    }
                }
                Mut::Truncate { which, len } => shred[(*which & 1) as usize].truncate(*len as usize),
                Mut::Flip { which, at, bits } => {
                    let s = &mut shred[(*which & 1) as usize];
                    if !s.is_empty() {
                        let at = *at as usize % s.len();
                        s[at] ^= bits;
                    }
                }
                Mut::Retransmit { which, seed } => {
                    let s = &mut shred[(*which & 1) as usize];
                    if let Some(v) = s.get(64).and_then(|b| model::Variant::parse(*b)) {
                        if v.resigned && s.len() >= v.payload_len() {
                            Rng::new(*seed).fill(&mut s[v.proof_end()..v.payload_len()]);
                        }
                    }
                }
                Mut::Tamper { .. } => {}
                Mut::Signature { which, other } => {
                    use solana_sdk::signer::Signer;
                    let s = &mut shred[(*which & 1) as usize];
                    if s.len() >= 64 {
                        let x = unrelated_message(seed, self.node);
                        let sig: [u8; 64] = if *other {
                            key(self.node).sign_message(&x).into()
                        } else {
                            let mut g = [0u8; 64];
                            Rng::new(seed ^ 0x6a).fill(&mut g);
                            g
                        };
                        s[..64].copy_from_slice(&sig);
                    }
                }
            }
        }
        let mut sig = [[0u8; 64]; 2];
        for k in 0..2 {
            if let Some(p) = model::parse(&shred[k]) {
                root[k] = p.root;
            }
            if shred[k].len() >= 64 {
                sig[k].copy_from_slice(&shred[k][..64]);
            }
        }
        for m in &self.muts {
            if let Mut::Tamper { which, at, bits } = m {
                let s = &mut shred[(*which & 1) as usize];
                if !s.is_empty() {
                    let at = *at as usize % s.len();
                    s[at] ^= bits;
                }
            }
        }
        if self.swap {
            shred.swap(0, 1);
            root.swap(0, 1);
            sig.swap(0, 1);
        }
        Built { shred, root, sig }
    }
}

pub fn base_spec(r: &mut Rng, slot: u64) -> ShredSpec {
    let (chained, resigned) = *r.pick(&[(false, false), (true, false), (true, true)]);
    ShredSpec {
        code: r.coin(),
        chained,
        resigned,
        proof_size: if r.pct(10) { r.range(1, 15) as u8 } else { *r.pick(&[5, 6, 6, 6, 7, 8, 15]) },
        slot,
        index: 0,
        version: *r.pick(&[0, 1, 50093, 65535]),
        fec: *r.pick(&[0, 0, 1, 31, 32, 64, 1000, 32_767]),
        flags: 0,
        parent_offset: r.range(1, 3) as u16,
        num_data: 0,
        num_coding: 0,
        position: 0,
        body: r.u64(),
        retransmitter: 0,
    }
}

/// Fills in consistent positions for the given spec.
fn place(r: &mut Rng, s: &mut ShredSpec) {
    // Mostly as many as there are today, sometimes as many as the tree can hold.
    let full = 1u64 << s.proof_size;
    let cap = if r.pct(15) { full } else { full.min(256) };
    if s.code {
        s.num_data = r.range(1, (cap / 2).max(1)) as u16;
        s.num_coding = r.range(1, (cap / 2).max(1)) as u16;
        s.position = r.below(s.num_coding as u64) as u16;
        s.index = s.position as u32 + *r.pick(&[0u32, 1, 32, s.fec]);
    } else {
        let within = if r.pct(70) { cap.min(32) } else { cap };
        s.index = s.fec + r.below(within) as u32;
        s.flags = *r.pick(&[0, 0x01, 0x3f, 0x40, 0x7f, 0x80, 0xbf]);
    }
}

/// Makes the chosen kind of genuine conflict, with boundary values likely.
pub fn genuine(r: &mut Rng, node: u8, slot: u64, kind: Conflict) -> Evidence {
    let mut a = base_spec(r, slot);
    let mut b;
    let mut same_tree = false;
    match kind {
        Conflict::MerkleRoot => {
            place(r, &mut a);
            b = a.clone();
            if r.pct(60) {
                b.code = r.coin();
                if r.coin() {
                    let (c, rs) = *r.pick(&[(false, false), (true, false), (true, true)]);
                    b.chained = c;
                    b.resigned = rs;
                }
                place(r, &mut b);
            }
            b.body = if r.pct(10) && (a.index != b.index || a.code != b.code) {
                a.body
            } else {
                r.u64()
            };
        }
        Conflict::OverlappingSets => {
            a.code = true;
            a.proof_size = *r.pick(&[2, 6, 7, 8]);
            place(r, &mut a);
            if a.num_data < 2 {
                a.num_data = 2;
            }
            b = base_spec(r, slot);
            b.version = a.version;
            // The first, the last, or some overlapped set start.
            b.fec = a.fec
                + match r.below(3) {
                    0 => 1,
                    1 => a.num_data as u32 - 1,
                    _ => r.range(1, a.num_data as u64 - 1) as u32,
                };
            place(r, &mut b);
        }
        Conflict::SameIndex => {
            // Same type and index, different sets.
            a.fec = r.range(0, 100) as u32;
            place(r, &mut a);
            b = a.clone();
            b.body = r.u64();
            b.fec = a.fec + r.range(1, 20) as u32;
            if a.code {
                // Avoid an overlap so that only the index clashes.
                a.num_data = 1;
                b.num_data = r.range(1, 4) as u16;
            } else {
                a.index = b.fec + r.below(10) as u32;
                a.proof_size = 6;
                b.index = a.index;
                b.proof_size = 6;
            }
        }
        Conflict::BeyondLast => {
            a.code = false;
            a.proof_size = a.proof_size.max(6);
            a.index = a.fec + r.below(16) as u32;
            a.flags = *r.pick(&[0xc0, 0xc1, 0xff]);
            b = a.clone();
            b.body = r.u64();
            b.flags = *r.pick(&[0, 0x3f, 0x40, 0x7f, 0x80, 0xc0, 0xff]);
            if r.coin() {
                // In the same set, under the same root.
                same_tree = true;
                b.index = a.index
                    + match r.below(3) {
                        0 => 1,
                        1 => 47,
                        _ => r.range(1, 40) as u32,
                    };
            } else {
                b.fec = a.index + 1 + r.below(10) as u32;
                b.index = b.fec + r.below(32) as u32;
            }
        }
        Conflict::ErasureConfig => {
            a.code = true;
            a.proof_size = *r.pick(&[4, 6, 7, 8]);
            place(r, &mut a);
            same_tree = true;
            b = a.clone();
            b.body = r.u64();
            let cap = (1u32 << a.proof_size) as u16;
            match r.below(4) {
                0 => {
                    b.num_coding = if a.num_coding > 1 && r.coin() {
                        a.num_coding - 1
                    } else {
                        a.num_coding + 1
                    };
                    b.position = (a.position + 1) % cap.saturating_sub(a.num_data).max(1);
                }
                1 => {
                    b.num_data = a.num_data + 1;
                    b.position = if (a.num_data + 1 + a.position) < cap { a.position } else { 0 };
                }
                2 => {
                    // Only the first coding index differs.
                    b.position = if a.position > 0 { a.position - 1 } else { 1 };
                    b.index = a.index + 1 + r.below(3) as u32;
                    if b.index as i64 - b.position as i64 == a.index as i64 - a.position as i64 {
                        b.index += 1;
                    }
                }
                _ => {
                    b.position = if a.position > 0 { a.position - 1 } else { 1 };
                    b.num_coding = a.num_coding + 1;
                    b.index = (a.index + b.position as u32).saturating_sub(a.position as u32);
                }
            }
            if b.index == a.index {
                b.index += 1;
            }
        }
    }
    Evidence {
        node,
        slot,
        src: Source::Pair {
            a,
            b,
            same_tree,
            tree: r.u64(),
            signer_a: node,
            signer_b: node,
        },
        muts: vec![],
        swap: r.coin(),
    }
}

pub const KINDS: [Conflict; 5] = [
    Conflict::MerkleRoot,
    Conflict::OverlappingSets,
    Conflict::SameIndex,
    Conflict::BeyondLast,
    Conflict::ErasureConfig,
];

/// Two shreds over small domains: conflicts and near misses, the oracle decides which.
pub fn dense(r: &mut Rng, node: u8, slot: u64) -> Evidence {
    let mut a = base_spec(r, slot);
    a.proof_size = 6;
    let small = |r: &mut Rng, s: &mut ShredSpec| {
        s.code = r.coin();
        s.fec = r.below(5) as u32;
        s.index = s.fec + r.below(5) as u32;
        s.flags = *r.pick(&[0, 0x3f, 0x40, 0x80, 0xc0, 0xff]);
        s.num_data = r.below(5) as u16;
        s.num_coding = r.below(4) as u16;
        s.position = r.below(4) as u16;
        if s.code {
            s.index = s.position as u32 + r.below(4) as u32;
        }
    };
    small(r, &mut a);
    let mut b = a.clone();
    match r.below(3) {
        0 => small(r, &mut b),
        1 => {
            for _ in 0..r.range(1, 2) {
                match r.below(8) {
                    0 => b.fec = r.below(6) as u32,
                    1 => b.index = r.below(8) as u32,
                    2 => b.flags = *r.pick(&[0, 0x3f, 0x40, 0x80, 0xc0, 0xff]),
                    3 => b.num_data = r.below(5) as u16,
                    4 => b.num_coding = r.below(4) as u16,
                    5 => b.position = r.below(4) as u16,
                    6 => b.body = r.u64(),
                    _ => b.code = !b.code,
                }
            }
        }
        _ => {
            // Another shred of what could be the same block.
            if b.code {
                b.position = r.below(4) as u16;
                b.index = (a.index + b.position as u32).saturating_sub(a.position as u32);
            } else {
                b.index = b.fec + r.below(6) as u32;
            }
            b.body = r.u64();
        }
    }
    if r.pct(8) {
        b.version ^= *r.pick(&[1u16, 0x100, 0xffff]);
    }
    if r.pct(5) {
        let other = slot.wrapping_add(*r.pick(&[1, u64::MAX, 256, 1 << 40]));
        if r.coin() {
            b.slot = other
        } else {
            a.slot = other
        }
    }
    if r.pct(15) {
        b.retransmitter = r.u64();
    }
    Evidence {
        node,
        slot,
        src: Source::Pair {
            a,
            b,
            same_tree: r.pct(75),
            tree: r.u64(),
            signer_a: node,
            signer_b: node,
        },
        muts: vec![],
        swap: r.coin(),
    }
}

/// Two shreds of one honest block, transported by an adversary.
pub fn honest(r: &mut Rng, node: u8, slot: u64) -> Evidence {
    let block = HonestBlock::generate(r, slot);
    let n = block.len();
    let (mut i, mut j) = (r.idx(n), r.idx(n));
    match r.below(6) {
        0 => j = i,
        1 => {
            // The last data shred and some other one.
            let before: usize = block.sets[..block.sets.len() - 1]
                .iter()
                .map(|(d, c)| (*d + *c) as usize)
                .sum();
            i = before + block.sets.last().unwrap().0 as usize - 1;
        }
        2 => {
            // Neighbouring sets: a code shred and the next set's first shred.
            if block.sets.len() > 1 {
                let k = r.idx(block.sets.len() - 1);
                let start: usize = block.sets[..k]
                    .iter()
                    .map(|(d, c)| (*d + *c) as usize)
                    .sum();
                let (d, c) = block.sets[k];
                i = start + d as usize + r.idx(c as usize);
                j = start + (d + c) as usize + r.idx(block.sets[k + 1].0 as usize);
            }
        }
        _ => {}
    }
    Evidence {
        node,
        slot,
        src: Source::Honest {
            block,
            i,
            j,
            signer: node,
        },
        muts: vec![],
        swap: r.coin(),
    }
}

/// Fills both pieces up to the size of a packet, or to around what an account can grow to within
/// one instruction.
pub fn pad(r: &mut Rng, e: &mut Evidence) {
    let (one, two) = match r.below(6) {
        0..=2 => (1232, 1232),
        3 => (1232, r.range(1203, 1232) as u16),
        4 => {
            // 10240 bytes of report, more or less
            let total = 10240 - model::HEADER_LEN as u64 - 8 + *r.pick(&[0, 1, 1, 2, 100, 2000]);
            let one = r.range(1232, total - 1232) as u16;
            (one, total as u16 - one)
        }
        _ => (r.range(1232, 6000) as u16, r.range(1232, 6000) as u16),
    };
    for (which, len) in [(0, one), (1, two)] {
        e.muts.push(Mut::PadTo { which, len, seed: r.u64() });
    }
}

/// Mostly in the signature, which nothing but the signature itself protects.
pub fn tamper(r: &mut Rng, which: u8) -> Mut {
    Mut::Tamper {
        which,
        at: if r.pct(60) { r.below(64) } else { r.below(1228) } as u16,
        bits: 1 << r.below(8),
    }
}

pub fn mutate(r: &mut Rng, e: &mut Evidence) {
    for _ in 0..r.range(1, 2) {
        let which = r.below(2) as u8;
        e.muts.push(match r.below(10) {
            9 => tamper(r, which),
            0..=2 => Mut::Append {
                which,
                n: *r.pick(&[1, 4, 25, 29, 64, 1000, 5200]),
                seed: r.u64(),
            },
            3 => Mut::Truncate {
                which,
                len: *r.pick(&[0, 1, 63, 64, 65, 73, 82, 88, 600, 1139, 1163, 1202, 1203, 1227]),
            },
            4 => Mut::Flip {
                which,
                at: r.below(90) as u16,
                bits: 1 << r.below(8),
            },
            5 => Mut::Flip {
                which,
                at: r.below(1228) as u16,
                bits: 1 << r.below(8),
            },
            6 | 7 => Mut::Retransmit {
                which,
                seed: r.u64(),
            },
            _ => Mut::Signature {
                which,
                other: r.coin(),
            },
        });
    }
}
