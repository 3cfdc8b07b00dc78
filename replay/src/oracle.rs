//! Judges one concrete execution against the property statements.
use {
    crate::{
        spec::{conflicts, le, unpack_proof, Shred},
        world::*,
    },
    solana_program::pubkey::Pubkey,
};

pub type V = (&'static str, String);

fn verified_entries(c: &Case) -> Vec<(Vec<u8>, Vec<u8>, Vec<u8>)> {
    // what the precompile checked in the instruction right before tx[cur]
    let mut out = vec![];
    if c.cur == 0 || c.tx[c.cur - 1].program_id != ed25519_id() {
        return out;
    }
    let d = &c.tx[c.cur - 1].data;
    let Some(&n) = d.first() else { return out };
    for i in 0..n as usize {
        let f = |k: usize| le(d, 2 + 14 * i + 2 * k, 2).unwrap_or(0xfffe) as usize;
        let get = |ix: usize, off: usize, len: usize| -> Vec<u8> {
            let src: &[u8] = if ix == 0xffff { d } else { c.tx.get(ix).map(|t| &t.data[..]).unwrap_or(&[]) };
            src.get(off..off + len).unwrap_or(&[]).to_vec()
        };
        out.push((get(f(3), f(2), 32), get(f(6), f(4), f(5)), get(f(1), f(0), 64)));
    }
    out
}

fn dalek_ok(key: &[u8], msg: &[u8], sig: &[u8]) -> bool {
    use ed25519_dalek::{PublicKey, Signature};
    match (PublicKey::from_bytes(key), Signature::from_bytes(sig)) {
        (Ok(k), Ok(s)) => k.verify_strict(msg, &s).is_ok(),
        _ => false,
    }
}

pub fn pda(node: &[u8], slot: u64) -> Pubkey {
    Pubkey::find_program_address(&[node, &slot.to_le_bytes(), &[1]], &program_id()).0
}

pub fn judge(c: &Case, o: &Outcome) -> Vec<V> {
    let mut v: Vec<V> = vec![];
    let ix = c.slash_ix();
    let d = &ix.data;
    if let Res::NotRun(_) = o.res {
        return v;
    }
    if let Res::Panic(m) = &o.res {
        v.push(("C15", format!("the program panicked: {m}")));
        return v;
    }
    let ok = o.res == Res::Ok;
    if let Res::RuntimeReject(m) = &o.res {
        v.push(("C11", m.clone()));
    }
    match d.first() {
        None => {
            if ok {
                v.push(("C12", "empty instruction accepted".into()))
            }
        }
        Some(0) => judge_close(c, o, ok, &mut v),
        Some(1) => judge_report(c, o, ok, &mut v),
        Some(x) => {
            if ok {
                v.push(("C12", format!("unknown instruction {x} accepted")))
            }
        }
    }
    v
}

fn judge_report(c: &Case, o: &Outcome, ok: bool, v: &mut Vec<V>) {
    let ix = c.slash_ix();
    let d = &ix.data;
    let why_not = |v: &mut Vec<V>, p: &'static str, m: String| {
        if ok {
            v.push((p, format!("report accepted although {m}")));
        }
        false
    };
    if d.len() != 305 {
        why_not(v, "C12", format!("instruction data is {} bytes", d.len()));
        return;
    }
    if ix.accounts.len() < 4 {
        why_not(v, "C14", "fewer than four accounts".into());
        return;
    }
    let key = |i: usize| ix.accounts[i].pubkey;
    let off = le(d, 1, 8).unwrap();
    let slot = le(d, 9, 8).unwrap();
    let (node, reporter, dest) = (&d[17..49], &d[49..81], &d[81..113]);
    let mut all = true;
    if key(2) != instructions_sysvar_id() {
        all = why_not(v, "C14", "the third account is not the instructions sysvar".into());
    }
    if key(3) != system_id() {
        all = why_not(v, "C14", "the fourth account is not the system program".into());
    }
    if slot > c.slot || c.slot - slot > c.slots_per_epoch {
        all = why_not(
            v,
            "C07",
            format!("slot {slot} is not within {} slots before {}", c.slots_per_epoch, c.slot),
        );
    }
    let proof = c.acc(&key(0)).data;
    let parsed = proof.get(off.min(usize::MAX as u64) as usize..).and_then(unpack_proof);
    let Some((p1, p2)) = parsed else {
        why_not(v, "C06", "the proof account holds no proof at that offset".into());
        return;
    };
    match (Shred::parse(p1), Shred::parse(p2)) {
        (Some(a), Some(b)) => {
            let ents = verified_entries(c);
            for (n, s) in [(1, &a), (2, &b)] {
                if !dalek_ok(node, &s.root, s.sig()) {
                    all = why_not(v, "C01", format!("shred {n} is not signed by the reported node"));
                } else if !ents.iter().any(|e| e.0 == node && e.1 == s.root && e.2 == s.sig()) {
                    all = why_not(v, "C01", format!("the precompile did not check the signature of shred {n}"));
                }
            }
            if a.slot != slot || b.slot != slot {
                all = why_not(v, "C02", "a shred is for another slot".into());
            } else if a.version != b.version {
                all = why_not(v, "C02", "the shred versions differ".into());
            } else {
                let k = conflicts(&a, &b);
                if k.is_empty() {
                    all = why_not(v, "C02", "the shreds do not conflict".into());
                } else if !(a.code_header_ok() && b.code_header_ok()) {
                    all = false; // malformed coding header: either verdict
                }
            }
            // the shape of sigverify instruction that the program supports
            let std = c.cpi.is_none()
                && ents.len() >= 2
                && [&a, &b].iter().zip(&ents).all(|(s, e)| e.0 == node && e.1 == s.root && e.2 == s.sig())
                && (0..2).all(|i| {
                    [1, 3, 6].iter().all(|k| {
                        le(&c.tx[c.cur - 1].data, 2 + 14 * i + 2 * k, 2) == Some(c.cur as u64)
                    })
                });
            all &= std;
        }
        (a, b) => {
            let n = if a.is_none() { 1 } else { 2 };
            let _ = b;
            all = why_not(v, "C04", format!("shred {n} is not a well formed merkle shred"));
        }
    }
    let rep = pda(node, slot);
    if key(1) != rep {
        all = why_not(v, "C09", "the report account is not the address of this violation".into());
    }
    let pre = c.acc(&key(1));
    if pre.owner == program_id() && pre.data.first().map_or(false, |b| *b > 0) {
        all = why_not(v, "C09", "this violation was already reported".into());
    }
    if dest == rep.as_ref() {
        all = why_not(v, "C09", "the destination is the report account".into());
    }
    let len = 114 + 8 + p1.len() + p2.len();
    let rent = solana_program::rent::Rent {
        lamports_per_byte_year: c.lamports_per_byte_year,
        ..Default::default()
    };
    if pre.lamports < rent.minimum_balance(len) {
        all = why_not(v, "C09", "the report account is not prefunded".into());
    }
    if ok {
        let mut want = vec![1u8];
        want.extend(reporter);
        want.extend(dest);
        want.extend(c.epoch.to_le_bytes());
        want.extend(node);
        want.extend(slot.to_le_bytes());
        want.push(1);
        want.extend((p1.len() as u32).to_le_bytes());
        want.extend(p1);
        want.extend((p2.len() as u32).to_le_bytes());
        want.extend(p2);
        let a = &o.after[1];
        if a.data != want {
            v.push(("C08", "the stored report differs from the submitted violation".into()));
        }
        if a.owner != program_id() {
            v.push(("C08", "the report is not owned by the slashing program".into()));
        }
        if a.lamports != pre.lamports {
            v.push(("C11", "reporting moved lamports".into()));
        }
        for i in [0, 2, 3] {
            if o.after[i] != c.acc(&key(i)) && key(i) != key(1) {
                v.push(("C08", format!("account {i} was modified")));
            }
        }
    } else {
        // runtime preconditions of acceptance
        let m = &ix.accounts[1];
        let plain = (pre.owner == system_id() && pre.data.is_empty()) && m.is_writable;
        let uniq = (0..4).all(|i| (0..i).all(|j| key(i) != key(j)));
        if all && plain && uniq && len <= 10240 {
            v.push(("C03", format!("a genuine violation was rejected: {:?}", o.res)));
        }
    }
}

fn judge_close(c: &Case, o: &Outcome, ok: bool, v: &mut Vec<V>) {
    let ix = c.slash_ix();
    if ix.accounts.len() < 2 {
        if ok {
            v.push(("C14", "close accepted with fewer than two accounts".into()));
        }
        return;
    }
    let r = c.acc(&ix.accounts[0].pubkey);
    let d = c.acc(&ix.accounts[1].pubkey);
    let mut all = true;
    if r.owner != program_id() || r.data.len() < 114 {
        if ok {
            v.push(("C14", "close accepted for an account that is no report of this program".into()));
        }
        all = false;
    }
    if r.data.len() >= 114 {
        let created = le(&r.data, 65, 8).unwrap();
        if c.epoch < created.saturating_add(3) {
            all = false;
            if ok {
                v.push(("C10", format!("report of epoch {created} closed in epoch {}", c.epoch)));
            }
        }
        if r.data[33..65] != d.key.to_bytes() {
            all = false;
            if ok {
                v.push(("C10", "report closed to an account other than its destination".into()));
            }
        }
    }
    if !ok {
        let dup = r.key == d.key;
        let w = ix.accounts[0].is_writable && ix.accounts[1].is_writable;
        if all && !dup && w && r.lamports.checked_add(d.lamports).is_some() && r.owner == program_id() {
            v.push(("C10", format!("a closable report could not be closed: {:?}", o.res)));
        }
        return;
    }
    if r.key != d.key {
        let (ar, ad) = (&o.after[0], &o.after[1]);
        if ar.lamports != 0 {
            v.push(("C11", "the closed report keeps lamports".into()));
        }
        if ad.lamports as u128 != d.lamports as u128 + r.lamports as u128 {
            v.push(("C11", "the destination was not credited exactly the report's lamports".into()));
        }
        if !ar.data.is_empty() || ar.owner != system_id() {
            v.push(("C11", "the closed report account was not emptied and returned to the system program".into()));
        }
        if ad.data != d.data || ad.owner != d.owner {
            v.push(("C11", "closing modified the destination beyond its lamports".into()));
        }
    }
}
