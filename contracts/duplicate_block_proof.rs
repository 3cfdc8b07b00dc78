use super::*;
use crate::verif::*;

/// Contract of `Shred::merkle_root` (established by the `merkle_root` harnesses):
/// a root exists exactly for well formed shreds and depends only on the payload.
impl<'a> Shred<'a> {
    fn merkle_root_contract(&self) -> Result<Hash, SlashingError> {
        unsafe {
            let second = crate::shred::verif::payload(self).as_ptr() == R.p2;
            if if second { R.wf2 } else { R.wf1 } {
                Ok(Hash::new_from_array(if second { R.root2 } else { R.root1 }))
            } else {
                Err(if kani::any() {
                    SlashingError::InvalidMerkleShred
                } else {
                    SlashingError::ShredDeserializationError
                })
            }
        }
    }
}
struct RootGhost {
    magic: [u8; 16],
    p2: *const u8,
    wf1: bool,
    wf2: bool,
    root1: [u8; 32],
    root2: [u8; 32],
}
static mut R: RootGhost = RootGhost {
    magic: *b"ghost of roots!!",
    p2: std::ptr::null(),
    wf1: false,
    wf2: false,
    root1: [0; 32],
    root2: [0; 32],
};

/// One shred as the specification sees it
#[derive(Clone, Copy)]
struct S {
    p: &'static [u8],
    l: Lay,
    slot: u64,
    index: u64,
    version: u64,
    fec: u64,
    num_data: u64,
    num_code: u64,
    position: u64,
    last: bool,
    root: [u8; 32],
}
fn parse(p: &'static [u8], root: [u8; 32]) -> S {
    S {
        p,
        l: lay(p).unwrap(),
        slot: f_slot(p).unwrap(),
        index: f_index(p).unwrap(),
        version: f_version(p).unwrap(),
        fec: f_fec(p).unwrap(),
        num_data: f_num_data(p).unwrap(),
        num_code: f_num_code(p).unwrap(),
        position: f_position(p).unwrap(),
        last: f_last(p).unwrap(),
        root,
    }
}
impl S {
    fn header_ok(&self) -> bool {
        !self.l.code || (self.fec + self.num_data <= u32::MAX as u64 && self.position <= self.index)
    }
    fn first_code(&self) -> i64 {
        self.index as i64 - self.position as i64
    }
}
fn root_conflict(a: &S, b: &S) -> bool {
    a.fec == b.fec && a.root != b.root
}
fn overlap(a: &S, b: &S) -> bool {
    a.l.code && a.fec < b.fec && a.fec + a.num_data > b.fec
}
fn beyond_last(a: &S, b: &S) -> bool {
    !a.l.code && !b.l.code && a.last && b.index > a.index
}
fn erasure_conflict(a: &S, b: &S) -> bool {
    a.l.code
        && b.l.code
        && a.fec == b.fec
        && a.index != b.index
        && (a.num_data != b.num_data
            || a.num_code != b.num_code
            || a.first_code() != b.first_code())
}
/// The leader produced the bytes before `end`; `w` witnesses a difference there
fn payload_conflict(a: &S, b: &S, w: usize) -> bool {
    a.l.code == b.l.code
        && a.index == b.index
        && (a.l.end() != b.l.end() || (w < a.l.end() && a.p[w] != b.p[w]))
}
fn conflict(a: &S, b: &S, w: usize) -> bool {
    a.slot == b.slot
        && a.version == b.version
        && (root_conflict(a, b)
            || overlap(a, b)
            || overlap(b, a)
            || beyond_last(a, b)
            || beyond_last(b, a)
            || erasure_conflict(a, b)
            || payload_conflict(a, b, w))
}

#[kani::proof]
#[kani::unwind(9)]
#[kani::stub(crate::shred::Shred::merkle_root, crate::shred::Shred::merkle_root_contract)]
#[kani::stub(alloc::fmt::format, fmt_model)]
#[kani::stub(solana_program::log::sol_log, log_model)]
fn verify_proof() {
    let (p1, p2): (&'static [u8], &'static [u8]) = (any_bytes(), any_bytes());
    let pubkey = Pubkey::new_from_array(kani::any());
    let (r1, r2) = (Hash::new_from_array(kani::any()), Hash::new_from_array(kani::any()));
    let (s1, s2): ([u8; 64], [u8; 64]) = (kani::any(), kani::any());
    let node = Pubkey::new_from_array(kani::any());
    let slot: u64 = kani::any();
    let w: usize = kani::any();
    unsafe {
        R.p2 = p2.as_ptr();
        R.wf1 = well_formed(p1);
        R.wf2 = well_formed(p2);
        R.root1 = kani::any();
        R.root2 = kani::any();
        VERIF_CMP[CMP_W] = w;
        VERIF_CMP[CMP_D] = w;
        let proof = DuplicateBlockProofData { shred1: p1, shred2: p2 };
        let r = proof.verify_proof(
            DuplicateBlockProofContext {
                expected_pubkey: &pubkey,
                expected_shred1_merkle_root: &r1,
                expected_shred1_signature: &s1,
                expected_shred2_merkle_root: &r2,
                expected_shred2_signature: &s2,
            },
            slot,
            &node,
        );
        let wf = R.wf1 && R.wf2;
        let i: usize = kani::any();
        kani::assume(i < 64);
        let j: usize = kani::any();
        kani::assume(j < 32);
        if r.is_ok() {
            assert!(wf, "[C02] only well formed merkle shreds are accepted");
            let a = parse(p1, R.root1);
            let b = parse(p2, R.root2);
            assert!(pubkey.to_bytes()[j] == node.to_bytes()[j], "[C01] verified key is the accused node");
            assert!(r1.as_ref()[j] == R.root1[j], "[C01] first verified message is the first root");
            assert!(r2.as_ref()[j] == R.root2[j], "[C01] second verified message is the second root");
            assert!(s1[i] == p1[i], "[C01] first verified signature is the first shred's");
            assert!(s2[i] == p2[i], "[C01] second verified signature is the second shred's");
            assert!(a.slot == slot && b.slot == slot, "[C02] both shreds are for the reported slot");
            assert!(a.version == b.version, "[C02] both shreds have the same version");
            assert!(conflict(&a, &b, VERIF_CMP[CMP_D]), "[C02] the shreds conflict");
        } else if wf {
            let a = parse(p1, R.root1);
            let b = parse(p2, R.root2);
            let matches = pubkey.to_bytes() == node.to_bytes()
                && r1.to_bytes() == R.root1
                && r2.to_bytes() == R.root2
                && s1[..] == p1[..64]
                && s2[..] == p2[..64];
            let must = matches
                && a.slot == slot
                && conflict(&a, &b, w)
                && a.header_ok()
                && b.header_ok();
            assert!(!must, "[C03] a conflicting pair with verified signatures is accepted");
        }
        kani::cover!(r.is_ok(), "accepting path");
        kani::cover!(r.is_err() && wf, "rejecting path");
    }
}

/// Lemma over the contract of `verify_proof`: on well formed headers it accepts
/// exactly the conflicting pairs, and a conflict has no direction.
#[kani::proof]
#[kani::unwind(9)]
fn conflicts_are_symmetric() {
    let (p1, p2): (&'static [u8], &'static [u8]) = (any_bytes(), any_bytes());
    kani::assume(well_formed(p1) && well_formed(p2));
    let (a, b) = (parse(p1, kani::any()), parse(p2, kani::any()));
    let w: usize = kani::any();
    assert!(conflict(&a, &b, w) == conflict(&b, &a, w), "[C19] a conflict has no direction");
    kani::cover!(conflict(&a, &b, w), "a conflict");
}

/// What an honest leader keeps to, said of two of its shreds of one slot.  The ghosts
/// describe the erasure batch each belongs to.
fn honest(a: &S, b: &S, w: usize) -> bool {
    let (nd, nc, fc): ([u64; 2], [u64; 2], [i64; 2]) = (kani::any(), kani::any(), kani::any());
    let of_batch = |s: &S, i: usize| {
        nd[i] <= u16::MAX as u64
            && if s.l.code {
                s.num_data == nd[i] && s.num_code == nc[i] && s.first_code() == fc[i]
            } else {
                s.fec <= s.index && s.index < s.fec + nd[i]
            }
    };
    of_batch(a, 0)
        && of_batch(b, 1)
        // one batch has one configuration and one root, and batches are disjoint
        && if a.fec == b.fec {
            nd[0] == nd[1] && nc[0] == nc[1] && fc[0] == fc[1] && a.root == b.root
        } else if a.fec < b.fec {
            a.fec + nd[0] <= b.fec
        } else {
            b.fec + nd[1] <= a.fec
        }
        // nothing comes after the last data shred
        && (a.l.code || b.l.code || ((!a.last || b.index <= a.index) && (!b.last || a.index <= b.index)))
        // there is one shred of each type and index, but for the retransmitter's signature
        && (a.l.code != b.l.code
            || a.index != b.index
            || (a.l == b.l && (w >= a.l.end() || a.p[w] == b.p[w])))
}
/// Lemma over the contract of `verify_proof`: what it accepts is never from one
/// honest block.
#[kani::proof]
#[kani::unwind(9)]
fn honest_blocks_have_no_conflicts() {
    let (p1, p2): (&'static [u8], &'static [u8]) = (any_bytes(), any_bytes());
    kani::assume(well_formed(p1) && well_formed(p2));
    let (a, b) = (parse(p1, kani::any()), parse(p2, kani::any()));
    let w: usize = kani::any();
    if honest(&a, &b, w) {
        assert!(!conflict(&a, &b, w), "[C02] no two shreds of an honest block conflict");
        kani::cover!(a.l.code && b.l.code && a.fec == b.fec && a.index != b.index, "coding shreds of a batch");
        kani::cover!(!a.l.code && a.last && b.l.code, "last data shred and coding shred");
        kani::cover!(a.fec < b.fec && a.slot == b.slot, "shreds of two batches");
    }
}

/// The order of the shreds does not matter
#[kani::proof]
#[kani::unwind(9)]
#[kani::stub(crate::shred::Shred::merkle_root, crate::shred::Shred::merkle_root_contract)]
#[kani::stub(alloc::fmt::format, fmt_model)]
#[kani::stub(solana_program::log::sol_log, log_model)]
fn verify_proof_swapped() {
    let (p1, p2): (&'static [u8], &'static [u8]) = (any_bytes(), any_bytes());
    let pubkey = Pubkey::new_from_array(kani::any());
    let (r1, r2) = (Hash::new_from_array(kani::any()), Hash::new_from_array(kani::any()));
    let (s1, s2): ([u8; 64], [u8; 64]) = (kani::any(), kani::any());
    let node = Pubkey::new_from_array(kani::any());
    let slot: u64 = kani::any();
    let w: usize = kani::any();
    unsafe {
        R.p2 = p2.as_ptr();
        R.wf1 = well_formed(p1);
        R.wf2 = well_formed(p2);
        kani::assume(R.wf1 && R.wf2);
        R.root1 = kani::any();
        R.root2 = kani::any();
        VERIF_CMP[CMP_W] = w;
        VERIF_CMP[CMP_D] = w;
        let (a, b) = (parse(p1, R.root1), parse(p2, R.root2));
        kani::assume(a.header_ok() && b.header_ok());
        let x = DuplicateBlockProofData { shred1: p1, shred2: p2 }.verify_proof(
            DuplicateBlockProofContext {
                expected_pubkey: &pubkey,
                expected_shred1_merkle_root: &r1,
                expected_shred1_signature: &s1,
                expected_shred2_merkle_root: &r2,
                expected_shred2_signature: &s2,
            },
            slot,
            &node,
        );
        let y = DuplicateBlockProofData { shred1: p2, shred2: p1 }.verify_proof(
            DuplicateBlockProofContext {
                expected_pubkey: &pubkey,
                expected_shred1_merkle_root: &r2,
                expected_shred1_signature: &s2,
                expected_shred2_merkle_root: &r1,
                expected_shred2_signature: &s1,
            },
            slot,
            &node,
        );
        // the witness of an agreement is arbitrary: take the difference, if
        // the other comparison found one
        kani::assume(VERIF_CMP[CMP_D] == VERIF_CMP[CMP_W]);
        assert!(x.is_ok() == y.is_ok(), "[C19] the order of the shreds does not matter");
        kani::cover!(x.is_ok(), "accepted");
        kani::cover!(x.is_err(), "rejected");
    }
}

/// Contract of the proof buffer: two length prefixed shreds, anything after them
/// is ignored.
#[kani::proof]
#[kani::unwind(9)]
fn unpack_proof() {
    let d: &'static [u8] = any_bytes();
    let r = DuplicateBlockProofData::unpack_proof(d);
    let n1 = le(d, 0, 4);
    let n2 = n1.and_then(|n1| le(d, 4 + n1 as usize, 4));
    let ok = match (n1, n2) {
        (Some(n1), Some(n2)) => (d.len() as u64) >= 8 + n1 + n2,
        _ => false,
    };
    assert!(r.is_ok() == ok, "[C06] complete buffers, and no others, are accepted");
    kani::cover!(r.is_ok(), "complete buffer");
    if let Ok(p) = r {
        let (n1, n2) = (n1.unwrap() as usize, n2.unwrap() as usize);
        let w: usize = kani::any();
        assert!(p.shred1.len() == n1, "[C06] length of the first shred");
        assert!(p.shred2.len() == n2, "[C06] length of the second shred");
        if w < n1 {
            assert!(p.shred1[w] == d[4 + w], "[C06] contents of the first shred");
        }
        if w < n2 {
            assert!(p.shred2[w] == d[8 + n1 + w], "[C06] contents of the second shred");
        }
    }
}

#[kani::proof]
#[kani::unwind(9)]
fn pack_proof() {
    let (a, b): (&'static [u8], &'static [u8]) = (any_bytes(), any_bytes());
    kani::assume(a.len() <= u32::MAX as usize && b.len() <= u32::MAX as usize);
    let p = DuplicateBlockProofData { shred1: a, shred2: b };
    let n = p.packed_len();
    let v = p.pack_proof();
    assert!(n == 8 + a.len() + b.len(), "[C06] packed length");
    assert!(v.len() == n, "[C06] the packed proof has the packed length");
    assert!(le(&v, 0, 4) == Some(a.len() as u64), "[C06] length prefix of the first shred");
    assert!(le(&v, 4 + a.len(), 4) == Some(b.len() as u64), "[C06] length prefix of the second shred");
    let w: usize = kani::any();
    if w < a.len() {
        assert!(v[4 + w] == a[w], "[C06] packed contents of the first shred");
    }
    if w < b.len() {
        assert!(v[8 + a.len() + w] == b[w], "[C06] packed contents of the second shred");
    }
}

/// What the ed25519 precompile verified for entry `e` of its instruction data, if
/// everything it read is inside the current top level instruction
#[derive(Clone, Copy)]
struct Verified {
    sig: usize,
    key: usize,
    msg: usize,
    len: usize,
}
fn entry(prev: &[u8], e: usize) -> Option<(Verified, [u64; 3])> {
    let at = 2 + 14 * e;
    Some((
        Verified {
            sig: le(prev, at, 2)? as usize,
            key: le(prev, at + 4, 2)? as usize,
            msg: le(prev, at + 8, 2)? as usize,
            len: le(prev, at + 10, 2)? as usize,
        },
        [le(prev, at + 2, 2)?, le(prev, at + 6, 2)?, le(prev, at + 12, 2)?],
    ))
}
/// Entry `e` was verified, and over the data of the current instruction only
fn verified(prev: &[u8], cur: &[u8], index: u16, e: usize) -> Option<Verified> {
    if prev.len() == 0 || prev[0] as usize <= e {
        return None;
    }
    let (v, ix) = entry(prev, e)?;
    let here = ix[0] == index as u64 && ix[1] == index as u64 && ix[2] == index as u64;
    let inside = v.sig + 64 <= cur.len() && v.key + 32 <= cur.len() && v.msg + v.len <= cur.len();
    if here && inside {
        Some(v)
    } else {
        None
    }
}

fn check_introspection(same: bool) {
    let input: &'static [u8] = any_bytes();
    let d: &'static [u8] = any_bytes();
    let (mut l, mut empty): (u64, [u8; 0]) = (0, []);
    let key = Pubkey::new_from_array(kani::any());
    let ai = AccountInfo::new(&key, false, false, &mut l, &mut empty, &key, false, 0);
    let accounts = SlashingAccounts {
        proof_account: &ai,
        violation_pda_account: &ai,
        instructions_sysvar: &ai,
        system_program_account: &ai,
    };
    unsafe {
        TX.index = kani::any();
        // the precompile reads index 65535 as its own instruction; no
        // transaction has as many instructions
        kani::assume(TX.index != u16::MAX);
        TX.cur = if same { input } else { any_bytes() };
        TX.cur_program = Pubkey::new_from_array(kani::any());
        TX.prev = any_bytes();
        TX.prev_program = Pubkey::new_from_array(kani::any());
        TX.fail = kani::any();
        let w: usize = kani::any();
        VERIF_CMP[CMP_W] = w;
        let r = DuplicateBlockProofData::unpack_proof_and_context(d, input, &accounts);
        let j: usize = kani::any();
        kani::assume(j < 32);
        let i: usize = kani::any();
        kani::assume(i < 64);
        let v1 = verified(TX.prev, TX.cur, TX.index, 0);
        let v2 = verified(TX.prev, TX.cur, TX.index, 1);
        let program = TX.prev_program.to_bytes() == solana_program::ed25519_program::id().to_bytes();
        match r {
            Ok((p, c)) if !same => {
                assert!(!TX.fail && program, "[C01] the previous instruction is the ed25519 precompile's");
                assert!(v1.is_some() && v2.is_some(), "[C01] two signatures were verified over this instruction's data");
                let (v1, v2) = (v1.unwrap(), v2.unwrap());
                assert!(v1.len == 32 && v2.len == 32, "[C01] the messages are merkle roots");
                // `w` ranges over everything the precompile read
                if w == v1.key + j {
                    assert!(c.expected_pubkey.as_ref()[j] == TX.cur[w], "[C01] first verified key");
                }
                if w == v2.key + j {
                    assert!(c.expected_pubkey.as_ref()[j] == TX.cur[w], "[C01] second verified key");
                }
                if w == v1.msg + j {
                    assert!(c.expected_shred1_merkle_root.as_ref()[j] == TX.cur[w], "[C01] first verified message");
                }
                if w == v2.msg + j {
                    assert!(c.expected_shred2_merkle_root.as_ref()[j] == TX.cur[w], "[C01] second verified message");
                }
                if w == v1.sig + i {
                    assert!(c.expected_shred1_signature[i] == TX.cur[w], "[C01] first verified signature");
                }
                if w == v2.sig + i {
                    assert!(c.expected_shred2_signature[i] == TX.cur[w], "[C01] second verified signature");
                }
                let n1 = le(d, 0, 4).unwrap() as usize;
                let n2 = le(d, 4 + n1, 4).unwrap() as usize;
                assert!(p.shred1.len() == n1 && p.shred2.len() == n2, "[C06] lengths of the shreds");
                if w < n1 {
                    assert!(p.shred1[w] == d[4 + w], "[C06] contents of the first shred");
                }
                if w < n2 {
                    assert!(p.shred2[w] == d[8 + n1 + w], "[C06] contents of the second shred");
                }
            }
            Err(_) if same => {
                let keys = match (&v1, &v2) {
                    (Some(a), Some(b)) => {
                        a.len == 32 && b.len == 32 && a.key == b.key
                    }
                    _ => false,
                };
                let complete = match le(d, 0, 4) {
                    Some(n1) => match le(d, 4 + n1 as usize, 4) {
                        Some(n2) => d.len() as u64 >= 8 + n1 + n2,
                        None => false,
                    },
                    None => false,
                };
                assert!(
                    !(keys && program && complete && !TX.fail),
                    "[C03] verified signatures of one key over two roots, with a complete proof, are accepted"
                );
            }
            _ => {}
        }
        kani::cover!(v1.is_some() && v2.is_some() && program, "two verified signatures");
    }
}
macro_rules! introspection {
    ($name:ident, $same:literal) => {
        #[kani::proof]
        #[kani::unwind(9)]
        #[kani::solver(minisat)]
        #[kani::stub(alloc::fmt::format, fmt_model)]
        #[kani::stub(solana_program::log::sol_log, log_model)]
        #[kani::stub(solana_program::sysvar::instructions::get_instruction_relative, relative_model)]
        #[kani::stub(solana_program::sysvar::instructions::load_instruction_at_checked, load_at_model)]
        #[kani::stub(solana_program::sysvar::instructions::load_current_index_checked, current_index_model)]
        fn $name() {
            check_introspection($same);
        }
    };
}
introspection!(introspection_any_caller, false);
introspection!(introspection_top_level, true);

/// The real ed25519 precompile of the runtime, from the source of the version in Cargo.lock,
/// over ghost cryptography that records what is verified
mod precompile {
    mod agave_feature_set {
        pub struct FeatureSet;
        impl FeatureSet {
            pub fn is_active(&self, _id: &u8) -> bool {
                kani::any()
            }
        }
        pub mod ed25519_precompile_verify_strict {
            pub fn id() -> u8 {
                0
            }
        }
    }
    mod solana_ed25519_program {
        pub const PUBKEY_SERIALIZED_SIZE: usize = 32;
        pub const SIGNATURE_SERIALIZED_SIZE: usize = 64;
        pub const SIGNATURE_OFFSETS_SERIALIZED_SIZE: usize = 14;
        pub const SIGNATURE_OFFSETS_START: usize = 2;
        #[repr(C)]
        pub struct Ed25519SignatureOffsets {
            pub signature_offset: u16,
            pub signature_instruction_index: u16,
            pub public_key_offset: u16,
            pub public_key_instruction_index: u16,
            pub message_data_offset: u16,
            pub message_data_size: u16,
            pub message_instruction_index: u16,
        }
    }
    mod solana_precompile_error {
        pub enum PrecompileError {
            InvalidPublicKey,
            InvalidSignature,
            InvalidDataOffsets,
            InvalidInstructionDataSize,
        }
    }
    mod ed25519_dalek {
        use super::CRYPTO;
        pub mod ed25519 {
            pub mod signature {
                pub trait Signature: Sized {
                    fn from_bytes(bytes: &[u8]) -> Result<Self, ()>;
                }
            }
        }
        pub struct Sig((*const u8, usize));
        impl ed25519::signature::Signature for Sig {
            fn from_bytes(bytes: &[u8]) -> Result<Self, ()> {
                if unsafe { CRYPTO.fail } && kani::any() {
                    return Err(());
                }
                Ok(Sig((bytes.as_ptr(), bytes.len())))
            }
        }
        pub struct PublicKey((*const u8, usize));
        impl PublicKey {
            pub fn from_bytes(bytes: &[u8]) -> Result<Self, ()> {
                if unsafe { CRYPTO.fail } && kani::any() {
                    return Err(());
                }
                Ok(PublicKey((bytes.as_ptr(), bytes.len())))
            }
            pub fn verify_strict(&self, message: &[u8], signature: &Sig) -> Result<(), ()> {
                unsafe {
                    if CRYPTO.n == CRYPTO.e {
                        CRYPTO.sig = signature.0;
                        CRYPTO.key = self.0;
                        CRYPTO.msg = (message.as_ptr(), message.len());
                    }
                    CRYPTO.n += 1;
                    if CRYPTO.fail && kani::any() {
                        Err(())
                    } else {
                        Ok(())
                    }
                }
            }
        }
        pub trait Verifier<S> {
            fn verify(&self, message: &[u8], signature: &S) -> Result<(), ()>;
        }
        impl Verifier<Sig> for PublicKey {
            fn verify(&self, message: &[u8], signature: &Sig) -> Result<(), ()> {
                self.verify_strict(message, signature)
            }
        }
    }
    pub struct CryptoGhost {
        magic: [u8; 16],
        pub e: usize,
        pub n: usize,
        pub fail: bool,
        pub sig: (*const u8, usize),
        pub key: (*const u8, usize),
        pub msg: (*const u8, usize),
    }
    pub static mut CRYPTO: CryptoGhost = CryptoGhost {
        magic: *b"ghost of ed25519",
        e: 0,
        n: 0,
        fail: false,
        sig: (std::ptr::null(), 0),
        key: (std::ptr::null(), 0),
        msg: (std::ptr::null(), 0),
    };
    include!(env!("SLASHING_PRECOMPILE"));
    pub fn run(data: &[u8], all: &[&[u8]]) -> bool {
        verify(data, all, &agave_feature_set::FeatureSet).is_ok()
    }
}

/// What the contracts above take to be verified (`verified`) is what the runtime's
/// ed25519 precompile verifies (bounded: at most 2 entries, 3 instructions)
#[kani::proof]
#[kani::unwind(3)]
fn ed25519_precompile() {
    use precompile::CRYPTO;
    let (prev, cur, other): (&[u8], &[u8], &[u8]) = (any_bytes(), any_bytes(), any_bytes());
    let mut all: [&[u8]; 3] = [other; 3];
    let (index, e, n): (u16, usize, usize) = (kani::any(), kani::any(), kani::any());
    kani::assume((index as usize) < n && n <= 3 && e < 2);
    all[index as usize] = cur;
    kani::assume(prev.len() == 0 || prev[0] <= 2);
    unsafe {
        CRYPTO.e = e;
        CRYPTO.fail = kani::any();
        let ok = precompile::run(prev, &all[..n]);
        if let Some(v) = verified(prev, cur, index, e) {
            if ok {
                assert!(CRYPTO.n > e, "[C01] the precompile verifies every entry");
                assert!(CRYPTO.sig == (cur.as_ptr().add(v.sig), 64), "[C01] the signature that the precompile verifies");
                assert!(CRYPTO.key == (cur.as_ptr().add(v.key), 32), "[C01] the key that the precompile verifies");
                assert!(CRYPTO.msg == (cur.as_ptr().add(v.msg), v.len), "[C01] the message that the precompile verifies");
            }
        }
        let two = prev.len() >= 30 && prev[0] == 2 && verified(prev, cur, index, 0).is_some() && verified(prev, cur, index, 1).is_some();
        if two && !CRYPTO.fail {
            assert!(ok, "[C03][C13] the precompile accepts two entries with correct signatures");
        }
        kani::cover!(ok && prev[0] == 2, "verified entries");
    }
}
