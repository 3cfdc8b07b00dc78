//! Structured generator of transactions around the slashing program
use {
    crate::{oracle::pda, spec::*, world::*},
    ed25519_dalek::{ExpandedSecretKey, PublicKey, SecretKey},
    solana_program::{
        hash::hashv,
        instruction::{AccountMeta, Instruction},
        pubkey::Pubkey,
        rent::Rent,
    },
};

pub struct Rng(pub u64);
impl Rng {
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.u64() % n.max(1)
    }
    pub fn one_in(&mut self, n: u64) -> bool {
        self.below(n) == 0
    }
    pub fn bytes<const N: usize>(&mut self) -> [u8; N] {
        let mut b = [0; N];
        b.iter_mut().for_each(|x| *x = self.u64() as u8);
        b
    }
    pub fn key(&mut self) -> Pubkey {
        Pubkey::new_from_array(self.bytes())
    }
    pub fn pick<T: Copy>(&mut self, x: &[T]) -> T {
        x[self.below(x.len() as u64) as usize]
    }
}

pub struct Gen {
    pub r: Rng,
    /// numbers worth trying: literals of the source, values of a counterexample
    pub dict: Vec<u64>,
}

pub struct Key {
    sk: ExpandedSecretKey,
    pk: PublicKey,
}
impl Key {
    pub fn new(r: &mut Rng) -> Self {
        let s = SecretKey::from_bytes(&r.bytes::<32>()).unwrap();
        Key { pk: (&s).into(), sk: (&s).into() }
    }
    pub fn pubkey(&self) -> Pubkey {
        Pubkey::new_from_array(self.pk.to_bytes())
    }
    pub fn sign(&self, m: &[u8]) -> [u8; 64] {
        self.sk.sign(m, &self.pk).to_bytes()
    }
}

#[derive(Clone, Debug)]
struct Sh {
    l: Layout,
    slot: u64,
    index: u32,
    version: u16,
    fec: u32,
    a: u16, // num_data | parent offset
    b: u16, // num_code | flags,size lo
    c: u16, // position | size hi
    fill: u64,
}
impl Sh {
    fn variant(&self) -> u8 {
        let hi = match (self.l.kind, self.l.chained, self.l.resigned) {
            (Kind::Code, false, _) => 4,
            (Kind::Code, true, false) => 6,
            (Kind::Code, true, true) => 7,
            (Kind::Data, false, _) => 8,
            (Kind::Data, true, false) => 9,
            (Kind::Data, true, true) => 0xb,
        };
        hi << 4 | self.l.proof_entries as u8
    }
    fn pos(&self) -> u64 {
        match self.l.kind {
            Kind::Data => (self.index as u64).wrapping_sub(self.fec as u64),
            Kind::Code => self.a as u64 + self.c as u64,
        }
    }
    fn bytes(&self) -> Vec<u8> {
        let mut r = Rng(self.fill);
        let mut p: Vec<u8> = (0..self.l.payload_size()).map(|_| r.u64() as u8).collect();
        p[64] = self.variant();
        p[65..73].copy_from_slice(&self.slot.to_le_bytes());
        p[73..77].copy_from_slice(&self.index.to_le_bytes());
        p[77..79].copy_from_slice(&self.version.to_le_bytes());
        p[79..83].copy_from_slice(&self.fec.to_le_bytes());
        p[83..85].copy_from_slice(&self.a.to_le_bytes());
        p[85..87].copy_from_slice(&self.b.to_le_bytes());
        p[87..89].copy_from_slice(&self.c.to_le_bytes());
        p
    }
}

fn leaf(l: &Layout, p: &[u8]) -> [u8; 32] {
    hashv(&[LEAF, &p[64..l.proof_start()]]).to_bytes()
}
fn join(a: &[u8], b: &[u8]) -> [u8; 32] {
    hashv(&[NODE, &a[..20], &b[..20]]).to_bytes()
}
/// Put both leaves in one tree (positions `pa != pb`), writing their proofs
fn one_tree(la: &Layout, a: &mut [u8], mut pa: u64, b: &mut [u8], mut pb: u64, r: &mut Rng) {
    let (mut ha, mut hb) = (leaf(la, a), leaf(la, b));
    for i in 0..la.proof_entries {
        let (sa, sb) = if pa >> 1 == pb >> 1 && pa != pb {
            (hb, ha)
        } else if pa == pb {
            let x = r.bytes();
            (x, x)
        } else {
            (r.bytes(), r.bytes())
        };
        for (p, h, s, q) in [(pa, &mut ha, sa, &mut *a), (pb, &mut hb, sb, &mut *b)] {
            let o = la.proof_start() + 20 * i;
            q[o..o + 20].copy_from_slice(&s[..20]);
            *h = if p % 2 == 0 { join(&*h, &s) } else { join(&s, &*h) };
        }
        pa >>= 1;
        pb >>= 1;
    }
}

pub fn root_of(p: &[u8]) -> [u8; 32] {
    Shred::parse(p).map(|s| s.root).unwrap_or([7; 32])
}

#[derive(Clone)]
struct Ent {
    f: [u16; 7],
}

impl Gen {
    fn num(&mut self, small: u64) -> u64 {
        match self.r.below(8) {
            0 if !self.dict.is_empty() => {
                let d = self.r.pick(&self.dict.clone());
                match self.r.below(4) {
                    0 => d.wrapping_add(1),
                    1 => d.wrapping_sub(1),
                    _ => d,
                }
            }
            1 => [0, 1, 2, 31, 32, 33, 63, 64, 65535, 65536, u32::MAX as u64, u32::MAX as u64 - 1, 1 << 31,
                1 << 32, u64::MAX][self.r.below(15) as usize],
            2 => self.r.u64() >> self.r.below(64),
            _ => self.r.below(small),
        }
    }
    fn layout(&mut self, kind: Kind) -> Layout {
        let chained = !self.r.one_in(3);
        Layout {
            kind,
            proof_entries: if self.r.one_in(8) { self.r.below(16) as usize } else { 3 + self.r.below(6) as usize },
            chained,
            resigned: chained && self.r.one_in(3),
        }
    }
    fn shred(&mut self, kind: Kind, slot: u64, version: u16) -> Sh {
        let l = self.layout(kind);
        let cap = 1u64 << l.proof_entries;
        let fec = self.num(2000).min(u32::MAX as u64) as u32;
        let mut s = Sh { l, slot, index: 0, version, fec, a: 0, b: 0, c: 0, fill: self.r.u64() };
        self.place(&mut s, cap);
        s
    }
    /// choose index/position fields that make the shred well formed
    fn place(&mut self, s: &mut Sh, cap: u64) {
        match s.l.kind {
            Kind::Data => {
                let k = self.num(cap).min(cap - 1);
                s.index = s.fec.saturating_add(k as u32);
                s.a = self.r.u64() as u16;
                s.b = self.r.u64() as u16;
                if self.r.one_in(2) {
                    s.b |= 0xc0;
                } else {
                    s.b &= !0x80;
                }
                s.c = self.r.u64() as u16;
            }
            Kind::Code => {
                let nd = self.num(cap).min(cap - 1);
                s.a = nd as u16;
                s.c = self.num(cap - nd).min(cap - nd - 1) as u16;
                s.b = self.num(64) as u16;
                let first = if self.r.one_in(3) { self.num(3000).min(1 << 31) } else { s.fec as u64 };
                s.index = (first + s.c as u64).min(u32::MAX as u64) as u32;
            }
        }
    }

    /// Two payloads (unsigned) with some relation to each other
    fn pair(&mut self, slot: u64) -> (Vec<u8>, Vec<u8>, &'static str) {
        let ver = self.num(10) as u16;
        let kind = if self.r.one_in(2) { Kind::Code } else { Kind::Data };
        let s1 = self.shred(kind, slot, ver);
        let other = match kind {
            Kind::Code => Kind::Data,
            Kind::Data => Kind::Code,
        };
        let cap = 1u64 << s1.l.proof_entries;
        let mut s2 = s1.clone();
        s2.fill = self.r.u64();
        let mut tree = false;
        let what = match self.r.below(10) {
            0 => "root",
            1 => {
                // same fec set, other place, one tree
                self.place(&mut s2, cap);
                tree = true;
                "sibling"
            }
            2 => {
                // same index, other fec set
                if kind == Kind::Data {
                    let k = self.r.below(cap) as u32;
                    s2.fec = s2.index.saturating_sub(k);
                } else {
                    s2.fec = self.num(3000) as u32;
                }
                "payload"
            }
            3 | 4 => {
                // neighbouring fec sets
                let k2 = if self.r.one_in(2) { kind } else { other };
                s2 = self.shred(k2, slot, ver);
                let reach = if kind == Kind::Code { s1.a as i64 } else { 32 };
                let d = match self.r.below(5) {
                    0 => 1,
                    1 => reach - 1,
                    2 => reach,
                    3 => reach + 1,
                    _ => self.r.below(reach.max(1) as u64) as i64,
                };
                s2.fec = (s1.fec as i64 + d).clamp(0, u32::MAX as i64) as u32;
                let c2 = 1u64 << s2.l.proof_entries;
                self.place(&mut s2, c2);
                "fec"
            }
            5 => {
                s2 = self.shred(kind, slot, ver);
                "random"
            }
            6 => {
                s2 = self.shred(other, slot, ver);
                if self.r.one_in(2) {
                    s2.fec = s1.fec;
                    let c2 = 1u64 << s2.l.proof_entries;
                    self.place(&mut s2, c2);
                }
                "types"
            }
            7 => {
                // erasure meta: same tree, one field off
                tree = true;
                if kind == Kind::Code {
                    let p = self.r.below(cap - s1.a as u64) as u16;
                    s2.c = p;
                    s2.index = (s1.index as i64 - s1.c as i64 + p as i64).clamp(0, u32::MAX as i64) as u32;
                    match self.r.below(4) {
                        0 => s2.b = s2.b.wrapping_add(1),
                        1 if (s2.a as u64) + 1 + (s2.c as u64) < cap => s2.a += 1,
                        2 => s2.index = s2.index.wrapping_add(1),
                        _ => {}
                    }
                } else {
                    self.place(&mut s2, cap);
                }
                "erasure"
            }
            _ => {
                s2 = s1.clone();
                "same"
            }
        };
        if self.r.one_in(12) {
            match self.r.below(5) {
                0 => s2.version = s2.version.wrapping_add(1),
                1 => s2.slot = s2.slot.wrapping_add(1),
                2 => s2.index = self.num(5000) as u32,
                3 => s2.fec = self.num(5000) as u32,
                _ => s2.a = self.num(100) as u16,
            }
        }
        let (mut a, mut b) = (s1.bytes(), s2.bytes());
        if tree && s1.l == s2.l && s1.pos() < cap && s2.pos() < cap {
            if s1.pos() == s2.pos() {
                b = a.clone();
            } else {
                one_tree(&s1.l, &mut a, s1.pos(), &mut b, s2.pos(), &mut self.r);
            }
        }
        if self.r.one_in(10) {
            for p in [&mut a, &mut b] {
                if self.r.one_in(2) {
                    let n = p.len() as u64;
                    p[(64 + self.r.below(n - 64)) as usize] ^= 1 << self.r.below(8);
                }
            }
        }
        if s1.l.resigned && what == "same" && self.r.one_in(2) {
            let n = b.len();
            b[n - 64..].copy_from_slice(&self.r.bytes::<64>());
        }
        if self.r.one_in(2) {
            (a, b) = (b, a);
        }
        (a, b, what)
    }

    fn chance(&mut self, m: &mut bool, n: u64) -> bool {
        // at most one mutation most of the time
        let c = self.r.one_in(n) && (!*m || self.r.one_in(4));
        *m |= c;
        c
    }

    pub fn report(&mut self) -> Case {
        let mut m = false;
        let slots_per_epoch = if self.r.one_in(4) { 32 + self.num(10_000).min(1 << 40) } else { 432_000 };
        let slot = self.num(1_000_000_000);
        let delta = match self.r.below(7) {
            0 => slots_per_epoch,
            1 => slots_per_epoch - 1,
            2 => 0,
            3 => 1,
            _ => self.r.below(slots_per_epoch),
        };
        let mut clock = slot.saturating_add(delta);
        if self.chance(&mut m, 12) {
            clock = match self.r.below(4) {
                0 => slot.saturating_sub(1),
                1 => slot.saturating_add(slots_per_epoch + 1),
                2 => slot.saturating_add(self.num(10 * slots_per_epoch)),
                _ => self.num(1 << 40),
            };
        }
        let epoch = if self.r.one_in(3) { self.num(1000) } else { clock / slots_per_epoch };
        let leader = Key::new(&mut self.r);
        let attacker = Key::new(&mut self.r);
        let (mut p1, mut p2, what) = self.pair(slot);
        let mut note = what.to_string();
        let pre_resize = self.r.one_in(2);
        if self.chance(&mut m, 10) {
            note += "+resize";
            for p in [&mut p1, &mut p2] {
                if self.r.one_in(2) {
                    match self.r.below(4) {
                        0 => p.push(self.r.u64() as u8),
                        1 => p.extend(vec![self.r.u64() as u8; 1 + self.r.below(40) as usize]),
                        2 => {
                            let n = p.len() as u64;
                            p.truncate(self.r.below(n) as usize)
                        }
                        _ => {
                            let n = p.len() as u64;
                            p.truncate((n - 1 - self.r.below(70)) as usize)
                        }
                    }
                }
            }
        }
        let _ = pre_resize;
        let mut signer: [&Key; 2] = [&leader, &leader];
        let mut node = leader.pubkey();
        if self.chance(&mut m, 14) {
            note += "+signer";
            match self.r.below(3) {
                0 => signer[self.r.below(2) as usize] = &attacker,
                1 => signer = [&attacker, &attacker],
                _ => node = self.r.key(),
            }
        }
        let roots = [root_of(&p1), root_of(&p2)];
        let mut sigs = [[0u8; 64]; 2];
        for i in 0..2 {
            sigs[i] = signer[i].sign(&roots[i]);
            let p = if i == 0 { &mut p1 } else { &mut p2 };
            let n = p.len().min(64);
            p[..n].copy_from_slice(&sigs[i][..n]);
        }
        if self.chance(&mut m, 20) {
            note += "+sigflip";
            let i = self.r.below(2) as usize;
            let p = if i == 0 { &mut p1 } else { &mut p2 };
            if p.len() >= 64 {
                p[self.r.below(64) as usize] ^= 1 << self.r.below(8);
                if self.r.one_in(2) {
                    sigs[i].copy_from_slice(&p[..64]);
                }
            }
        }
        // proof account
        let pre = if self.r.one_in(2) { 0 } else { self.r.below(300) as usize };
        let mut proof: Vec<u8> = (0..pre).map(|_| self.r.u64() as u8).collect();
        let mut offset = pre as u64;
        for p in [&p1, &p2] {
            proof.extend((p.len() as u32).to_le_bytes());
            proof.extend(p.iter());
        }
        if self.r.one_in(4) {
            proof.extend(vec![0; self.r.below(100) as usize]);
        }
        if self.chance(&mut m, 14) {
            note += "+proofbuf";
            match self.r.below(5) {
                0 => offset = self.num(3000),
                1 => {
                    let n = proof.len() as u64;
                    proof.truncate(self.r.below(n) as usize)
                }
                2 if proof.len() > pre + 4 => {
                    let x = self.num(3000) as u32;
                    proof[pre..pre + 4].copy_from_slice(&x.to_le_bytes())
                }
                3 => {
                    let o = pre + 4 + p1.len();
                    let x = self.num(3000) as u32;
                    proof[o..o + 4].copy_from_slice(&x.to_le_bytes())
                }
                _ => offset = proof.len() as u64 + self.r.below(3),
            }
        }
        let reporter = self.r.key();
        let mut dest = self.r.key();
        let rep = pda(node.as_ref(), slot);
        if self.chance(&mut m, 30) {
            note += "+dest=pda";
            dest = rep;
        }
        let enc = |sel: &[[u8; 32]; 2], sg: &[[u8; 64]; 2]| -> Vec<u8> {
            let mut d = vec![1u8];
            d.extend(offset.to_le_bytes());
            d.extend(slot.to_le_bytes());
            d.extend(node.to_bytes());
            d.extend(reporter.to_bytes());
            d.extend(dest.to_bytes());
            for i in 0..2 {
                d.extend(sel[i]);
                d.extend(sg[i]);
            }
            d
        };
        let proof_key = self.r.key();
        let mut metas = vec![
            AccountMeta::new_readonly(proof_key, false),
            AccountMeta::new(rep, false),
            AccountMeta::new_readonly(instructions_sysvar_id(), false),
            AccountMeta::new_readonly(system_id(), false),
        ];
        let filler = Instruction { program_id: self.r.key(), accounts: vec![], data: vec![1, 2, 3] };
        let mut slash =
            Instruction { program_id: program_id(), accounts: vec![], data: enc(&roots, &sigs) };
        let nfill = self.r.below(3) as usize;
        let mut cur = nfill + 1;
        let mut ents: Vec<Ent> = (0..2u16)
            .map(|i| Ent {
                f: [145 + 96 * i, cur as u16, 17, cur as u16, 113 + 96 * i, 32, cur as u16],
            })
            .collect();
        let mut own: Vec<u8> = vec![];
        let mut count = None;
        let mut pad = 0u8;
        let mut cpi_outer: Option<Vec<u8>> = None;
        let mut trunc: Option<usize> = None;
        if self.chance(&mut m, 4) {
            match self.r.below(11) {
                0 => {
                    note += "+offset";
                    let e = self.r.below(2) as usize;
                    let k = self.r.below(7) as usize;
                    ents[e].f[k] = self.num(330) as u16;
                }
                1 => {
                    note += "+count";
                    count = Some(self.num(4) as u8);
                    if self.r.one_in(2) {
                        pad = self.num(3) as u8;
                    }
                }
                2 | 3 => {
                    note += "+elsewhere";
                    // some fields live in the precompile's own data
                    let base = 2 + 14 * ents.len();
                    for i in 0..2 {
                        if self.r.one_in(3) {
                            continue;
                        }
                        let msg: [u8; 32] = if self.r.one_in(2) { roots[i] } else { self.r.bytes() };
                        let k: &Key = if self.r.one_in(2) { &leader } else { &attacker };
                        let sg = k.sign(&msg);
                        let o = (base + own.len()) as u16;
                        own.extend(sg);
                        own.extend(k.pubkey().to_bytes());
                        own.extend(msg);
                        let which = 1 + self.r.below(7);
                        for (bit, (fo, fi, oo)) in [(0, 1, o), (2, 3, o + 64), (4, 6, o + 96)].iter().enumerate() {
                            if which >> bit & 1 == 1 {
                                ents[i].f[*fo] = *oo;
                                ents[i].f[*fi] = 0xffff;
                            }
                        }
                        if self.r.one_in(2) {
                            // and claim something else in the slashing data
                            let mut r2 = roots;
                            let mut s2 = sigs;
                            if which & 1 == 1 { s2[i] = if i == 0 { p1[..].try_into().ok().unwrap_or(sigs[0]) } else { sigs[1] }; }
                            if which & 4 == 4 { r2[i] = roots[i]; }
                            slash.data = enc(&r2, &s2);
                        }
                    }
                }
                4 => {
                    note += "+dup-entry";
                    // both entries check the same shred
                    let i = self.r.below(2) as usize;
                    ents[1 - i] = ents[i].clone();
                }
                5 => {
                    note += "+swap-entry";
                    ents.swap(0, 1);
                }
                6 => {
                    note += "+extra-entry";
                    let e = ents[self.r.below(2) as usize].clone();
                    let at = self.r.below(3) as usize;
                    ents.insert(at, e);
                }
                7 => {
                    note += "+trunc";
                    trunc = Some(self.r.below(31) as usize);
                }
                8 => {
                    note += "+tail";
                    own = vec![0; 1 + self.r.below(3) as usize];
                }
                9 => {
                    note += "+count-pad";
                    // one verified entry, the padding byte says more
                    count = Some(self.r.below(3) as u8);
                    pad = 1 + self.r.below(2) as u8;
                    let i = self.r.below(2) as usize;
                    if self.r.one_in(2) {
                        sigs[1 - i] = self.r.bytes();
                        let p = if i == 1 { 0 } else { 1 };
                        let mut q = if p == 0 { p1.clone() } else { p2.clone() };
                        if q.len() >= 64 {
                            q[..64].copy_from_slice(&sigs[p]);
                        }
                        let at = pre + 4 + if p == 0 { 0 } else { p1.len() + 4 };
                        if at + q.len() <= proof.len() {
                            proof[at..at + q.len()].copy_from_slice(&q);
                        }
                        slash.data = enc(&roots, &sigs);
                    }
                }
                _ => {
                    note += "+cpi";
                    // the outer instruction carries data the attacker signed
                    let mut d = slash.data.clone();
                    if self.r.one_in(2) {
                        let r: [[u8; 32]; 2] = [self.r.bytes(), self.r.bytes()];
                        d[17..49].copy_from_slice(&attacker.pubkey().to_bytes());
                        for i in 0..2 {
                            d[113 + 96 * i..145 + 96 * i].copy_from_slice(&r[i]);
                            d[145 + 96 * i..209 + 96 * i].copy_from_slice(&attacker.sign(&r[i]));
                        }
                        if self.r.one_in(2) {
                            // claim signatures nobody made
                            let s: [[u8; 64]; 2] = [self.r.bytes(), self.r.bytes()];
                            for i in 0..2 {
                                slash.data[145 + 96 * i..209 + 96 * i].copy_from_slice(&s[i]);
                                let n = if i == 0 { p1.len() } else { p2.len() };
                                let at = pre + 4 + if i == 0 { 0 } else { p1.len() + 4 };
                                if n >= 64 && at + 64 <= proof.len() {
                                    proof[at..at + 64].copy_from_slice(&s[i]);
                                }
                            }
                        }
                    }
                    cpi_outer = Some(d);
                }
            }
        }
        let mut ed = vec![count.unwrap_or(ents.len() as u8), pad];
        for e in &ents {
            for x in e.f {
                ed.extend(x.to_le_bytes());
            }
        }
        ed.extend(&own);
        if let Some(t) = trunc {
            ed.truncate(t);
            if t > 0 && self.r.one_in(2) {
                ed[0] = 0;
                ed.truncate(2);
            }
        }
        let mut ed_ix = Instruction { program_id: ed25519_id(), accounts: vec![], data: ed };
        if self.chance(&mut m, 25) {
            note += "+no-precompile";
            ed_ix.program_id = self.r.key();
        }
        if self.chance(&mut m, 25) {
            note += "+ixdata";
            match self.r.below(4) {
                0 => {
                    slash.data.truncate(self.r.below(305) as usize);
                }
                1 => slash.data.push(self.r.u64() as u8),
                2 => slash.data[0] = self.num(4) as u8,
                _ => {
                    let i = self.r.below(305) as usize;
                    slash.data[i] ^= 1 << self.r.below(8)
                }
            }
        }
        if self.chance(&mut m, 20) {
            note += "+accounts";
            match self.r.below(7) {
                0 => metas[1].pubkey = self.r.key(),
                1 => metas[2].pubkey = self.r.key(),
                2 => metas[3].pubkey = self.r.key(),
                3 => metas.truncate(self.r.below(4) as usize),
                4 => metas[1].pubkey = pda(node.as_ref(), slot.wrapping_add(1)),
                5 => {
                    let (i, j) = (self.r.below(4) as usize, self.r.below(4) as usize);
                    metas[i].pubkey = metas[j].pubkey
                }
                _ => {
                    let (i, j) = (self.r.below(4) as usize, self.r.below(4) as usize);
                    metas.swap(i, j)
                }
            }
        }
        slash.accounts = metas;
        let lpby = if self.r.one_in(3) { self.num(1_000_000).min(1 << 30) } else { 3480 };
        let rent = Rent { lamports_per_byte_year: lpby, ..Rent::default() };
        let need = rent.minimum_balance(114 + 8 + p1.len() + p2.len());
        let mut lamports = match self.r.below(4) {
            0 => need,
            1 => rent.minimum_balance(114 + 8 + 2 * 1232),
            _ => need + self.num(1_000_000).min(1 << 50),
        };
        let mut owner = system_id();
        let mut data = vec![];
        if self.chance(&mut m, 14) {
            note += "+reportacc";
            match self.r.below(5) {
                0 => lamports = need.saturating_sub(1),
                1 => {
                    owner = program_id();
                    data = vec![self.num(4) as u8; 114 + self.r.below(3000) as usize];
                    data[0] = 1;
                }
                2 => {
                    owner = program_id();
                    let want = 114 + 8 + p1.len() + p2.len();
                    data = (0..want).map(|_| self.r.u64() as u8).collect();
                    data[0] = if self.r.one_in(2) { 1 } else { self.r.u64() as u8 };
                }
                3 => lamports = rent.minimum_balance(114 + 8 + p1.len() + p2.len() - 1),
                _ => {
                    owner = self.r.key();
                    data = vec![1; 10];
                }
            }
        }
        // sometimes use the program's own client builder instead
        let accounts;
        let mut tx = vec![filler; nfill];
        if m == false && self.r.one_in(3) || note.ends_with("resize") && self.r.one_in(3) {
            use solana_slashing_program::instruction::*;
            let mut d: DuplicateBlockProofInstructionData = bytemuck::pod_read_unaligned(&slash.data[1..]);
            d.offset = offset.into();
            let funder = if self.r.one_in(2) { Some(self.r.key()) } else { None };
            let ixs = duplicate_block_proof_with_sigverify_and_prefund(
                &proof_key,
                &d,
                funder.as_ref(),
                &rent,
            );
            note += "+client";
            cur = 2;
            tx = ixs.to_vec();
            // the transfer the client asked for is all the account holds
            lamports = if tx[0].program_id == system_id() && tx[0].data.len() == 12 && tx[0].data[0] == 2 {
                u64::from_le_bytes(tx[0].data[4..12].try_into().unwrap())
            } else {
                0
            };
            let to = tx[0].accounts.get(1).map(|a| a.pubkey).unwrap_or_default();
            accounts = vec![
                Acc { key: to, owner: system_id(), lamports, data: vec![] },
                Acc { key: proof_key, owner: self.r.key(), lamports: 1, data: proof },
            ];
        } else {
            tx.push(ed_ix);
            if self.chance(&mut m, 40) {
                note += "+gap";
                tx.push(tx[0].clone());
                cur += 1;
                for e in 0..2 {
                    for k in [1, 3, 6] {
                        let o = 2 + 14 * e + 2 * k;
                        if tx[nfill].data.len() > o + 1 {
                            tx[nfill].data[o] = cur as u8;
                        }
                    }
                }
            }
            accounts = vec![
                Acc { key: rep, owner, lamports, data },
                Acc { key: proof_key, owner: self.r.key(), lamports: 1, data: proof },
            ];
            match &cpi_outer {
                Some(d) => tx.push(Instruction { program_id: self.r.key(), accounts: slash.accounts.clone(), data: d.clone() }),
                None => tx.push(slash.clone()),
            }
        }
        Case {
            note,
            slot: clock,
            epoch,
            slots_per_epoch,
            lamports_per_byte_year: lpby,
            accounts,
            tx,
            cur,
            cpi: cpi_outer.map(|_| slash),
        }
    }

    pub fn close(&mut self) -> Case {
        let created = if self.r.one_in(10) { u64::MAX - self.r.below(5) } else { self.num(1000) };
        let epoch = match self.r.below(6) {
            0 => created.saturating_add(2),
            1 => created.saturating_add(3),
            2 => created,
            3 => created.saturating_add(4),
            _ => self.num(2000),
        };
        let dest = self.r.key();
        let rep = self.r.key();
        let mut data = vec![1u8];
        data.extend(self.r.bytes::<32>());
        data.extend(if self.r.one_in(10) { rep.to_bytes() } else { dest.to_bytes() });
        data.extend(created.to_le_bytes());
        data.extend(self.r.bytes::<40>());
        data.push(1);
        data.extend(vec![9; self.r.below(3000) as usize]);
        let mut owner = program_id();
        let mut to = dest;
        let mut ixd = vec![0u8];
        let mut m = false;
        let mut note = "close".to_string();
        if self.chance(&mut m, 12) {
            note += "+owner";
            owner = self.r.key();
        }
        if self.chance(&mut m, 8) {
            note += "+dest";
            to = match self.r.below(4) {
                0 => self.r.key(),
                1 => Pubkey::new_from_array(data[1..33].try_into().unwrap()),
                2 => Pubkey::new_from_array(data[73..105].try_into().unwrap()),
                _ => {
                    let mut k = dest.to_bytes();
                    k[self.r.below(32) as usize] ^= 1;
                    Pubkey::new_from_array(k)
                }
            }
        }
        if self.chance(&mut m, 12) {
            note += "+short";
            let n = data.len() as u64;
            data.truncate(if self.r.one_in(2) { self.r.below(114) } else { self.r.below(n) } as usize);
        }
        if self.chance(&mut m, 20) {
            note += "+ixdata";
            ixd.extend(vec![self.r.u64() as u8; self.r.below(10) as usize]);
        }
        let mut metas = vec![AccountMeta::new(rep, false), AccountMeta::new(to, false)];
        if self.chance(&mut m, 20) {
            note += "+accounts";
            match self.r.below(3) {
                0 => metas.truncate(self.r.below(2) as usize),
                1 => metas.swap(0, 1),
                _ => metas[1].pubkey = rep,
            }
        }
        let mut accounts = vec![Acc { key: rep, owner, lamports: self.num(1 << 40), data }];
        if self.r.one_in(2) {
            let n = self.r.below(50) as usize;
            accounts.push(Acc {
                key: to,
                owner: if self.r.one_in(2) { system_id() } else { self.r.key() },
                lamports: self.num(1 << 50),
                data: vec![3; n],
            });
        }
        Case {
            note,
            slot: self.num(1 << 40),
            epoch,
            slots_per_epoch: 432_000,
            lamports_per_byte_year: 3480,
            accounts,
            tx: vec![Instruction { program_id: program_id(), accounts: metas, data: ixd }],
            cur: 0,
            cpi: None,
        }
    }

    pub fn case(&mut self) -> Case {
        if self.r.one_in(6) {
            self.close()
        } else {
            self.report()
        }
    }
}
