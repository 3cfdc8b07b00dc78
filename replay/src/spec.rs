//! Executable specification, written from the wire formats and the property
//! statements.  It shares no code with the program under test.

use solana_program::hash::hashv;

pub const LEAF: &[u8] = b"\x00SOLANA_MERKLE_SHREDS_LEAF";
pub const NODE: &[u8] = b"\x01SOLANA_MERKLE_SHREDS_NODE";

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Code,
    Data,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Layout {
    pub kind: Kind,
    pub proof_entries: usize,
    pub chained: bool,
    pub resigned: bool,
}

pub fn layout(variant: u8) -> Option<Layout> {
    if variant == 0x5a || variant == 0xa5 {
        return None; // legacy
    }
    let (kind, chained, resigned) = match variant >> 4 {
        0x4 => (Kind::Code, false, false),
        0x6 => (Kind::Code, true, false),
        0x7 => (Kind::Code, true, true),
        0x8 => (Kind::Data, false, false),
        0x9 => (Kind::Data, true, false),
        0xb => (Kind::Data, true, true),
        _ => return None,
    };
    Some(Layout { kind, proof_entries: (variant & 15) as usize, chained, resigned })
}

impl Layout {
    pub fn payload_size(&self) -> usize {
        match self.kind {
            Kind::Code => 1228,
            Kind::Data => 1203,
        }
    }
    /// End of the part of the shred that the leader produced
    pub fn body_end(&self) -> usize {
        self.payload_size() - if self.resigned { 64 } else { 0 }
    }
    pub fn proof_start(&self) -> usize {
        self.body_end() - 20 * self.proof_entries
    }
}

pub fn le(p: &[u8], off: usize, n: usize) -> Option<u64> {
    let mut v = 0u64;
    for (i, b) in p.get(off..off + n)?.iter().enumerate() {
        v |= (*b as u64) << (8 * i);
    }
    Some(v)
}

#[derive(Clone, Debug)]
pub struct Shred<'a> {
    pub l: Layout,
    pub p: &'a [u8],
    pub slot: u64,
    pub index: u32,
    pub version: u16,
    pub fec: u32,
    pub root: [u8; 32],
}

impl<'a> Shred<'a> {
    /// `None` unless the payload is a structurally valid merkle shred
    pub fn parse(p: &'a [u8]) -> Option<Self> {
        let l = layout(*p.get(64)?)?;
        if p.len() < l.body_end() {
            return None;
        }
        let index = le(p, 73, 4)? as u32;
        let fec = le(p, 79, 4)? as u32;
        let mut pos = match l.kind {
            Kind::Data => index.checked_sub(fec)? as u64,
            Kind::Code => le(p, 83, 2)? + le(p, 87, 2)?,
        };
        let mut h = hashv(&[LEAF, &p[64..l.proof_start()]]).to_bytes();
        for e in p[l.proof_start()..l.body_end()].chunks(20) {
            h = if pos % 2 == 0 {
                hashv(&[NODE, &h[..20], e])
            } else {
                hashv(&[NODE, e, &h[..20]])
            }
            .to_bytes();
            pos >>= 1;
        }
        if pos != 0 {
            return None;
        }
        Some(Shred {
            l,
            p,
            slot: le(p, 65, 8)?,
            index,
            version: le(p, 77, 2)? as u16,
            fec,
            root: h,
        })
    }
    pub fn sig(&self) -> &[u8] {
        &self.p[..64]
    }
    pub fn num_data(&self) -> u64 {
        le(self.p, 83, 2).unwrap()
    }
    pub fn num_code(&self) -> u64 {
        le(self.p, 85, 2).unwrap()
    }
    pub fn position(&self) -> u64 {
        le(self.p, 87, 2).unwrap()
    }
    pub fn last(&self) -> bool {
        self.p[85] & 0xc0 == 0xc0
    }
    pub fn body(&self) -> &[u8] {
        &self.p[..self.l.body_end()]
    }
    /// Coding headers whose arithmetic leaves the u32 range are malformed
    pub fn code_header_ok(&self) -> bool {
        self.l.kind == Kind::Data
            || (self.fec as u64 + self.num_data() <= u32::MAX as u64
                && self.position() <= self.index as u64)
    }
}

/// Which conflicts a pair of shreds of the same slot and version exhibits
pub fn conflicts(a: &Shred, b: &Shred) -> Vec<&'static str> {
    let mut r = vec![];
    if a.slot != b.slot || a.version != b.version {
        return r;
    }
    if a.fec == b.fec && a.root != b.root {
        r.push("merkle-root");
    }
    for (x, y) in [(a, b), (b, a)] {
        if x.l.kind == Kind::Code && x.fec < y.fec && x.fec as u64 + x.num_data() > y.fec as u64 {
            r.push("fec-overlap");
        }
        if x.l.kind == Kind::Data && y.l.kind == Kind::Data && x.last() && y.index > x.index {
            r.push("last-index");
        }
    }
    if a.l.kind == b.l.kind && a.index == b.index && a.body() != b.body() {
        r.push("payload");
    }
    if a.l.kind == Kind::Code
        && b.l.kind == Kind::Code
        && a.fec == b.fec
        && a.index != b.index
        && (a.num_data() != b.num_data()
            || a.num_code() != b.num_code()
            || a.index as i64 - a.position() as i64 != b.index as i64 - b.position() as i64)
    {
        r.push("erasure-meta");
    }
    r
}

pub fn unpack_proof(d: &[u8]) -> Option<(&[u8], &[u8])> {
    let n1 = le(d, 0, 4)? as usize;
    let s1 = d.get(4..4usize.checked_add(n1)?)?;
    let d = &d[4 + n1..];
    let n2 = le(d, 0, 4)? as usize;
    let s2 = d.get(4..4usize.checked_add(n2)?)?;
    Some((s1, s2))
}
