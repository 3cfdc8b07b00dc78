use super::*;
use crate::verif::*;

pub(crate) fn payload<'a>(s: &Shred<'a>) -> &'a [u8] {
    s.payload
}

/// Contract of the decoding of a shred: which payloads are merkle shreds, and
/// what their header fields are.
#[kani::proof]
#[kani::unwind(9)]
#[kani::stub(alloc::fmt::format, fmt_model)]
#[kani::stub(solana_program::log::sol_log, log_model)]
fn decode() {
    let p: &'static [u8] = any_bytes();
    let r = Shred::new_from_payload(p);
    let l = lay(p);
    assert!(r.is_ok() == l.is_some(), "[C04] merkle shreds are recognised by their variant");
    kani::cover!(r.is_ok(), "merkle shred");
    if let Ok(s) = r {
        let l = l.unwrap();
        assert!((s.shred_type() == ShredType::Code) == l.code, "[C04] coding or data");
        assert!(s.slot().ok() == f_slot(p), "[C04] slot");
        assert!(s.index().ok().map(u64::from) == f_index(p), "[C04] index");
        assert!(s.version().ok().map(u64::from) == f_version(p), "[C04] version");
        let i: usize = kani::any();
        kani::assume(i < 64);
        assert!(s.signature().ok().map(|x| x[i]) == Some(p[i]), "[C04] signature");
        assert!(s.fec_set_index().ok().map(u64::from) == f_fec(p), "[C04] erasure batch");
        if l.code {
            let (nd, nc, po, ix, fec) = (f_num_data(p), f_num_code(p), f_position(p), f_index(p), f_fec(p));
            match s.erasure_meta() {
                Ok(m) => {
                    assert!(Some(m.num_data_shreds as u64) == nd, "[C04] number of data shreds");
                    assert!(Some(m.num_coding_shreds as u64) == nc, "[C04] number of coding shreds");
                    assert!(po.is_some() && ix == Some(m.first_coding_index as u64 + po.unwrap()), "[C04] position");
                }
                Err(_) => assert!(nc.is_none() || po.is_none() || ix.unwrap() < po.unwrap(), "[C04] the coding header is read"),
            }
            // a batch that would end beyond the last index may be an error or not
            if fec.unwrap_or(0) + nd.unwrap_or(0) <= u32::MAX as u64 {
                let next = match (fec, nd) {
                    (Some(f), Some(n)) => Some(f + n),
                    _ => None,
                };
                assert!(s.next_fec_set_index().ok().map(u64::from) == next, "[C04] the next erasure batch");
            }
        } else {
            assert!(s.last_in_slot().ok() == f_last(p), "[C04] last in slot");
        }
    }
}

/// Contract of `merkle_root`: there is a root exactly for well formed shreds, and
/// it is the root of the merkle path.  Call `k` of the hash function is observed:
/// the leaf is call 0, the node with proof entry i is call i + 1, and there are at
/// most 15 entries.
fn check_merkle_root(k: usize) {
    let p: &'static [u8] = any_bytes();
    let Ok(s) = Shred::new_from_payload(p) else {
        return;
    };
    let Some(l) = lay(p) else {
        return;
    };
    let n = l.n;
    kani::assume(k <= n);
    let (w, r): (usize, usize) = (kani::any(), kani::any());
    let d = if w < 26 { 0 } else if w < 46 { w - 26 } else if w < 66 { w - 46 } else { 0 };
    kani::assume(r < 32);
    unsafe {
        H.k = k;
        H.w = w;
        H.d = d;
        H.r = r;
        H.n = 0;
        let res = s.merkle_root();
        if k == 0 {
            assert!(res.is_ok() == well_formed(p), "[C05] a root exists exactly for well formed shreds");
        }
        if let (Ok(root), Some(leaf)) = (res, f_leaf_of(p, &l)) {
            kani::cover!(n == 15, "full depth");
            if k == 0 {
                assert!(H.n == n + 1, "[C05] one leaf and one node per proof entry are hashed");
                assert!(root.as_ref()[r] == H.last, "[C05] the root is the last digest");
                assert!(H.len == 26 + (l.proof_at() - 64), "[C05] leaf length");
                if w < H.len {
                    let want = if w < 26 { b"\x00SOLANA_MERKLE_SHREDS_LEAF"[w] } else { p[64 + (w - 26)] };
                    assert!(H.byte == want, "[C05] leaf contents");
                }
            } else {
                assert!(H.len == 66, "[C05] node length");
                if w < 66 {
                    let left_is_acc = (leaf >> (k - 1)) & 1 == 0;
                    let want = if w < 26 {
                        b"\x01SOLANA_MERKLE_SHREDS_NODE"[w]
                    } else if (w < 46) == left_is_acc {
                        H.prev
                    } else {
                        p[l.proof_at() + 20 * (k - 1) + d]
                    };
                    assert!(H.byte == want, "[C05] node contents");
                }
            }
        }
    }
}
macro_rules! merkle {
    ($($name:ident $k:literal)*) => {
        $(
            #[kani::proof]
            #[kani::unwind(17)]
            #[kani::stub(solana_program::hash::hashv, hashv_model)]
            fn $name() {
                check_merkle_root($k);
            }
        )*
    };
}
merkle!(
    merkle_root_00 0
    merkle_root_01 1
    merkle_root_02 2
    merkle_root_03 3
    merkle_root_04 4
    merkle_root_05 5
    merkle_root_06 6
    merkle_root_07 7
    merkle_root_08 8
    merkle_root_09 9
    merkle_root_10 10
    merkle_root_11 11
    merkle_root_12 12
    merkle_root_13 13
    merkle_root_14 14
    merkle_root_15 15
);
