//! Builds signed merkle shreds for any header values, alone or two in one tree, and consistent
//! honest blocks.
use {
    crate::{
        model::{join, leaf_hash, sha, Variant, CODE_HEADERS, DATA_HEADERS},
        rng::Rng,
    },
    serde_derive::{Deserialize, Serialize},
    solana_sdk::{signature::Keypair, signer::Signer},
};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct ShredSpec {
    pub code: bool,
    pub chained: bool,
    pub resigned: bool,
    pub proof_size: u8,
    pub slot: u64,
    pub index: u32,
    pub version: u16,
    pub fec: u32,
    /// Data shreds only.
    pub flags: u8,
    pub parent_offset: u16,
    /// Code shreds only.
    pub num_data: u16,
    pub num_coding: u16,
    pub position: u16,
    pub body: u64,
    pub retransmitter: u64,
}

impl ShredSpec {
    pub fn variant(&self) -> Variant {
        Variant {
            code: self.code,
            chained: self.chained,
            resigned: self.resigned && self.chained,
            proof_size: self.proof_size & 0xf,
        }
    }
    pub fn leaf_index(&self) -> Option<u64> {
        if self.code {
            Some(self.num_data as u64 + self.position as u64)
        } else {
            (self.index as u64).checked_sub(self.fec as u64)
        }
    }
    /// Unsigned, without proof.
    fn raw(&self) -> Vec<u8> {
        let v = self.variant();
        let mut p = vec![0u8; v.payload_len()];
        let mut r = Rng::new(self.body ^ 0x5eed);
        let headers = if v.code { CODE_HEADERS } else { DATA_HEADERS };
        r.fill(&mut p[headers..]);
        p[64] = v.byte();
        p[65..73].copy_from_slice(&self.slot.to_le_bytes());
        p[73..77].copy_from_slice(&self.index.to_le_bytes());
        p[77..79].copy_from_slice(&self.version.to_le_bytes());
        p[79..83].copy_from_slice(&self.fec.to_le_bytes());
        if v.code {
            p[83..85].copy_from_slice(&self.num_data.to_le_bytes());
            p[85..87].copy_from_slice(&self.num_coding.to_le_bytes());
            p[87..89].copy_from_slice(&self.position.to_le_bytes());
        } else {
            p[83..85].copy_from_slice(&self.parent_offset.to_le_bytes());
            p[85] = self.flags;
            let size = 88 + 200u16;
            p[86..88].copy_from_slice(&size.to_le_bytes());
        }
        if v.resigned {
            let end = v.proof_end();
            let mut r = Rng::new(self.retransmitter ^ 0x7e57);
            r.fill(&mut p[end..]);
        }
        p
    }
}

/// A merkle tree in which only some leaves are known; all other nodes are pseudo-random.
struct SparseTree<'a> {
    seed: u64,
    leaves: &'a [(u64, [u8; 32])],
}
impl SparseTree<'_> {
    fn node(&self, level: u32, idx: u64) -> [u8; 32] {
        let lo = idx << level;
        let hi = lo + (1u64 << level);
        if !self.leaves.iter().any(|(l, _)| (lo..hi).contains(l)) {
            return sha(&[
                b"absent",
                &self.seed.to_le_bytes(),
                &level.to_le_bytes(),
                &idx.to_le_bytes(),
            ]);
        }
        if level == 0 {
            return self.leaves.iter().find(|(l, _)| *l == idx).unwrap().1;
        }
        join(
            &self.node(level - 1, 2 * idx),
            &self.node(level - 1, 2 * idx + 1),
        )
    }
    fn proof(&self, leaf: u64, size: u8) -> Vec<u8> {
        let mut out = vec![];
        for level in 0..size as u32 {
            out.extend_from_slice(&self.node(level, (leaf >> level) ^ 1)[..20]);
        }
        out
    }
}

#[derive(Clone)]
pub struct Signed {
    pub payload: Vec<u8>,
    pub root: [u8; 32],
    pub signature: [u8; 64],
}

fn finish(spec: &ShredSpec, mut p: Vec<u8>, tree: &SparseTree, key: &Keypair) -> Signed {
    let v = spec.variant();
    let leaf = spec.leaf_index().unwrap_or(0);
    let (start, end) = (v.proof_start(), v.proof_end());
    p[start..end].copy_from_slice(&tree.proof(leaf, v.proof_size));
    let root = tree.node(v.proof_size as u32, leaf >> v.proof_size);
    let sig: [u8; 64] = key.sign_message(&root).into();
    p[..64].copy_from_slice(&sig);
    Signed {
        payload: p,
        root,
        signature: sig,
    }
}

/// One shred in a tree of its own.
pub fn build(spec: &ShredSpec, tree_seed: u64, key: &Keypair) -> Signed {
    let p = spec.raw();
    let leaf = leaf_hash(&p[64..spec.variant().proof_start()]);
    let leaves = [(spec.leaf_index().unwrap_or(0), leaf)];
    let t = SparseTree {
        seed: tree_seed,
        leaves: &leaves,
    };
    finish(spec, p, &t, key)
}

/// Both shreds in one tree, hence with one root. Falls back to separate trees when impossible.
pub fn build_pair(
    a: &ShredSpec,
    b: &ShredSpec,
    same_tree: bool,
    tree_seed: u64,
    ka: &Keypair,
    kb: &Keypair,
) -> (Signed, Signed) {
    let (pa, pb) = (a.raw(), b.raw());
    let (va, vb) = (a.variant(), b.variant());
    let (la, lb) = (a.leaf_index(), b.leaf_index());
    let ha = leaf_hash(&pa[64..va.proof_start()]);
    let hb = leaf_hash(&pb[64..vb.proof_start()]);
    let possible = match (la, lb) {
        (Some(x), Some(y)) => va.proof_size == vb.proof_size && (x != y || ha == hb),
        _ => false,
    };
    if !(same_tree && possible) {
        return (
            build(a, tree_seed, ka),
            build(b, tree_seed.wrapping_add(1), kb),
        );
    }
    let mut leaves = vec![(la.unwrap(), ha)];
    if la != lb {
        leaves.push((lb.unwrap(), hb));
    }
    let t = SparseTree {
        seed: tree_seed,
        leaves: &leaves,
    };
    (finish(a, pa, &t, ka), finish(b, pb, &t, kb))
}

/// Shape of one honestly produced block.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct HonestBlock {
    pub slot: u64,
    pub version: u16,
    pub chained: bool,
    pub resign_last: bool,
    /// (data shreds, coding shreds) per erasure set.
    pub sets: Vec<(u16, u16)>,
    pub seed: u64,
    /// Erasure sets of 32 and 32 shreds before these.
    #[serde(default)]
    pub before: u32,
}

impl HonestBlock {
    pub fn generate(r: &mut Rng, slot: u64) -> Self {
        let n = r.range(1, 4);
        let sets = (0..n)
            .map(|_| {
                if r.pct(30) {
                    (32, 32)
                } else if r.pct(10) {
                    (r.range(33, 100) as u16, r.range(17, 67) as u16)
                } else {
                    (r.range(1, 6) as u16, r.range(1, 6) as u16)
                }
            })
            .collect();
        let chained = r.pct(75);
        Self {
            slot,
            version: *r.pick(&[0, 1, 50093, 65535]),
            chained,
            resign_last: chained && r.pct(60),
            sets,
            seed: r.u64(),
            before: if r.pct(30) { *r.pick(&[1, 3, 7, 8, 100, 255, 1000, 1010]) } else { 0 },
        }
    }
    pub fn len(&self) -> usize {
        self.sets.iter().map(|(d, c)| (*d + *c) as usize).sum()
    }
    /// Spec of the i-th shred plus the number of its erasure set.
    pub fn spec(&self, i: usize) -> (ShredSpec, usize) {
        let (mut left, mut fec, mut first_code) = (i, 32 * self.before, 32 * self.before);
        for (s, (d, c)) in self.sets.iter().enumerate() {
            let (d, c) = (*d as usize, *c as usize);
            let lastset = s + 1 == self.sets.len();
            if left < d + c {
                let code = left >= d;
                let total = (d + c) as u32;
                let proof_size = total.next_power_of_two().trailing_zeros() as u8;
                let pos = left.saturating_sub(d);
                let mut flags = (self.seed as u8) & 0x3f;
                if !code && left + 1 == d {
                    flags |= if lastset { 0xc0 } else { 0x40 };
                }
                return (
                    ShredSpec {
                        code,
                        chained: self.chained,
                        resigned: self.resign_last && lastset,
                        proof_size,
                        slot: self.slot,
                        index: if code {
                            first_code + pos as u32
                        } else {
                            fec + left as u32
                        },
                        version: self.version,
                        fec,
                        flags,
                        parent_offset: 1,
                        num_data: d as u16,
                        num_coding: c as u16,
                        position: pos as u16,
                        body: self.seed.wrapping_add(i as u64 * 7919),
                        retransmitter: 0,
                    },
                    s,
                );
            }
            left -= d + c;
            fec += d as u32;
            first_code += c as u32;
        }
        unreachable!("shred number out of range")
    }
    /// The i-th shred as the leader signed it.
    pub fn shred(&self, i: usize, key: &Keypair) -> Signed {
        let (spec, set) = self.spec(i);
        let first = self.sets[..set]
            .iter()
            .map(|(d, c)| (*d + *c) as usize)
            .sum::<usize>();
        let (d, c) = self.sets[set];
        let leaves: Vec<(u64, [u8; 32])> = (first..first + (d + c) as usize)
            .map(|k| {
                let (s, _) = self.spec(k);
                let p = s.raw();
                (
                    s.leaf_index().unwrap(),
                    leaf_hash(&p[64..s.variant().proof_start()]),
                )
            })
            .collect();
        let t = SparseTree {
            seed: self.seed ^ set as u64,
            leaves: &leaves,
        };
        finish(&spec, spec.raw(), &t, key)
    }
}
