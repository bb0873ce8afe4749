//! The oracle: an independent, executable statement of what makes two shreds conflict, who signed
//! them, where a report lives and what it must contain. Written from the documentation, not from
//! the program's code; shares no code with it.
use {
    sha2::{Digest, Sha256},
    solana_sdk::{pubkey::Pubkey, signature::Signature},
};

pub const DATA_PAYLOAD: usize = 1203;
pub const CODE_PAYLOAD: usize = 1228;
pub const DATA_HEADERS: usize = 88;
pub const CODE_HEADERS: usize = 89;
pub const HEADER_LEN: usize = 114;
pub const MAX_REPORT_LEN: usize = HEADER_LEN + 2 * (1232 + 4);

pub fn program_id() -> Pubkey {
    // S1ashing11111111111111111111111111111111111
    solana_sdk::pubkey!("S1ashing11111111111111111111111111111111111")
}

pub fn sha(parts: &[&[u8]]) -> [u8; 32] {
    let mut h = Sha256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().into()
}
pub fn leaf_hash(covered: &[u8]) -> [u8; 32] {
    sha(&[b"\x00SOLANA_MERKLE_SHREDS_LEAF", covered])
}
pub fn join(l: &[u8], r: &[u8]) -> [u8; 32] {
    sha(&[b"\x01SOLANA_MERKLE_SHREDS_NODE", &l[..20], &r[..20]])
}

/// Where a (node, slot) violation is recorded.
pub fn report_address(node: &Pubkey, slot: u64) -> Pubkey {
    Pubkey::find_program_address(&[node.as_ref(), &slot.to_le_bytes(), &[1u8]], &program_id()).0
}

/// Kind, geometry and offsets implied by the variant byte.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Variant {
    pub code: bool,
    pub chained: bool,
    pub resigned: bool,
    pub proof_size: u8,
}
impl Variant {
    pub fn parse(b: u8) -> Option<Self> {
        if b == 0x5a || b == 0xa5 {
            return None;
        }
        let (code, chained, resigned) = match b & 0xf0 {
            0x40 => (true, false, false),
            0x60 => (true, true, false),
            0x70 => (true, true, true),
            0x80 => (false, false, false),
            0x90 => (false, true, false),
            0xb0 => (false, true, true),
            _ => return None,
        };
        Some(Self {
            code,
            chained,
            resigned,
            proof_size: b & 0xf,
        })
    }
    pub fn byte(&self) -> u8 {
        let hi = match (self.code, self.chained, self.resigned) {
            (true, false, _) => 0x40,
            (true, true, false) => 0x60,
            (true, true, true) => 0x70,
            (false, false, _) => 0x80,
            (false, true, false) => 0x90,
            (false, true, true) => 0xb0,
        };
        hi | self.proof_size
    }
    pub fn payload_len(&self) -> usize {
        if self.code {
            CODE_PAYLOAD
        } else {
            DATA_PAYLOAD
        }
    }
    pub fn proof_end(&self) -> usize {
        self.payload_len() - if self.resigned { 64 } else { 0 }
    }
    /// First byte of the merkle proof = end of the bytes the leaf hash covers.
    pub fn proof_start(&self) -> usize {
        self.proof_end() - 20 * self.proof_size as usize
    }
}

#[derive(Clone, Debug)]
pub struct Parsed {
    pub v: Variant,
    pub slot: u64,
    pub index: u32,
    pub version: u16,
    pub fec: u32,
    pub last: bool,
    pub num_data: u16,
    pub num_coding: u16,
    pub position: u16,
    pub root: [u8; 32],
    pub signature: [u8; 64],
    /// Everything but the retransmitter's signature and bytes that are not part of the shred.
    pub content: Vec<u8>,
    pub exact_len: bool,
}

fn u16_at(p: &[u8], o: usize) -> u16 {
    u16::from_le_bytes([p[o], p[o + 1]])
}
fn u32_at(p: &[u8], o: usize) -> u32 {
    u32::from_le_bytes(p[o..o + 4].try_into().unwrap())
}
fn u64_at(p: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(p[o..o + 8].try_into().unwrap())
}

/// None: not a shred anybody could have signed (or not a supported kind).
pub fn parse(p: &[u8]) -> Option<Parsed> {
    let v = Variant::parse(*p.get(64)?)?;
    let end = v.proof_end();
    let start = v.proof_start();
    if p.len() < end {
        return None;
    }
    let index = u32_at(p, 73);
    let fec = u32_at(p, 79);
    let (mut last, mut num_data, mut num_coding, mut position) = (false, 0, 0, 0);
    let mut leaf: u64 = if v.code {
        num_data = u16_at(p, 83);
        num_coding = u16_at(p, 85);
        position = u16_at(p, 87);
        num_data as u64 + position as u64
    } else {
        last = p[85] & 0xc0 == 0xc0;
        (index as u64).checked_sub(fec as u64)?
    };
    let mut node = leaf_hash(&p[64..start]);
    for sib in p[start..end].chunks(20) {
        node = if leaf & 1 == 0 {
            join(&node, sib)
        } else {
            join(sib, &node)
        };
        leaf >>= 1;
    }
    if leaf != 0 {
        return None;
    }
    Some(Parsed {
        v,
        slot: u64_at(p, 65),
        index,
        version: u16_at(p, 77),
        fec,
        last,
        num_data,
        num_coding,
        position,
        root: node,
        signature: p[..64].try_into().unwrap(),
        content: p[..end].to_vec(),
        exact_len: p.len() == v.payload_len(),
    })
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, serde_derive::Serialize, serde_derive::Deserialize)]
pub enum Conflict {
    MerkleRoot,
    OverlappingSets,
    SameIndex,
    BeyondLast,
    ErasureConfig,
}

/// Whether the two shreds could not both be part of one honestly produced block for `slot`.
pub fn conflict(a: &Parsed, b: &Parsed, slot: u64) -> Option<Conflict> {
    if a.slot != slot || b.slot != slot || a.version != b.version {
        return None;
    }
    if a.fec == b.fec && a.root != b.root {
        return Some(Conflict::MerkleRoot);
    }
    let covers = |x: &Parsed, y: &Parsed| {
        x.v.code && x.fec < y.fec && x.fec as u64 + x.num_data as u64 > y.fec as u64
    };
    if covers(a, b) || covers(b, a) {
        return Some(Conflict::OverlappingSets);
    }
    if a.v.code != b.v.code {
        return None;
    }
    if a.index == b.index {
        return (a.content != b.content).then_some(Conflict::SameIndex);
    }
    if !a.v.code {
        let (lo, hi) = if a.index < b.index { (a, b) } else { (b, a) };
        let _ = hi;
        return lo.last.then_some(Conflict::BeyondLast);
    }
    let meta = |x: &Parsed| {
        (
            x.num_data,
            x.num_coding,
            x.index as i64 - x.position as i64,
        )
    };
    (a.fec == b.fec && meta(a) != meta(b)).then_some(Conflict::ErasureConfig)
}

/// Free of the corner cases for which the documentation does not promise acceptance.
pub fn well_formed(p: &Parsed) -> bool {
    p.exact_len
        && (!p.v.code
            || (p.index >= p.position as u32
                && p.fec.checked_add(p.num_data as u32).is_some()))
}

pub fn signed_by(p: &Parsed, node: &Pubkey) -> bool {
    Signature::from(p.signature).verify(node.as_ref(), &p.root)
}

/// The report account's content as documented.
#[derive(Clone, Debug, PartialEq)]
pub struct Header {
    pub version: u8,
    pub reporter: Pubkey,
    pub destination: Pubkey,
    pub epoch: u64,
    pub node: Pubkey,
    pub slot: u64,
    pub kind: u8,
}
pub fn decode_report(d: &[u8]) -> Option<(Header, Vec<u8>, Vec<u8>)> {
    if d.len() < HEADER_LEN + 8 {
        return None;
    }
    let key = |o: usize| Pubkey::new_from_array(d[o..o + 32].try_into().unwrap());
    let h = Header {
        version: d[0],
        reporter: key(1),
        destination: key(33),
        epoch: u64_at(d, 65),
        node: key(73),
        slot: u64_at(d, 105),
        kind: d[113],
    };
    let l1 = u32_at(d, HEADER_LEN) as usize;
    let s1 = d.get(HEADER_LEN + 4..HEADER_LEN + 4 + l1)?;
    let o2 = HEADER_LEN + 4 + l1;
    let l2 = u32::from_le_bytes(d.get(o2..o2 + 4)?.try_into().unwrap()) as usize;
    let s2 = d.get(o2 + 4..o2 + 4 + l2)?;
    if o2 + 4 + l2 != d.len() {
        return None;
    }
    Some((h, s1.to_vec(), s2.to_vec()))
}
