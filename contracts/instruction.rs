use super::*;
use crate::verif::*;

/// Instruction data from its wire format
fn data_of(b: &[u8; 304]) -> DuplicateBlockProofInstructionData {
    fn a<const N: usize>(b: &[u8; 304], at: usize) -> [u8; N] {
        let mut r = [0u8; N];
        r.copy_from_slice(&b[at..at + N]);
        r
    }
    DuplicateBlockProofInstructionData {
        offset: PodU64::from(u64::from_le_bytes(a(b, 0))),
        slot: PodU64::from(u64::from_le_bytes(a(b, 8))),
        node_pubkey: Pubkey::new_from_array(a(b, 16)),
        reporter: Pubkey::new_from_array(a(b, 48)),
        destination: Pubkey::new_from_array(a(b, 80)),
        shred_1_merkle_root: Hash::new_from_array(a(b, 112)),
        shred_1_signature: a(b, 144),
        shred_2_merkle_root: Hash::new_from_array(a(b, 208)),
        shred_2_signature: a(b, 240),
    }
}
fn meta(m: &AccountMeta, key: &Pubkey, signer: bool, writable: bool) -> bool {
    m.pubkey == *key && m.is_signer == signer && m.is_writable == writable
}
/// The ghost address derivation is that of the violation of `b`
fn seed(b: &[u8; 304]) {
    any_pda();
    unsafe {
        PDA.seeds[..32].copy_from_slice(&b[16..48]);
        PDA.seeds[32..40].copy_from_slice(&b[8..16]);
        PDA.seeds[40] = 1;
    }
}
fn check_report_ix(ix: &Instruction, b: &[u8; 304], proof: &Pubkey) {
    let w: usize = kani::any();
    kani::assume(w < 305);
    assert!(ix.program_id == id(), "[C12] instructions are for this program");
    assert!(ix.data.len() == 305, "[C12] length of the report instruction");
    let want = if w == 0 { 1 } else { b[w - 1] };
    assert!(ix.data[w] == want, "[C12] wire format of the report instruction");
    assert!(ix.accounts.len() == 4, "[C12] accounts of the report instruction");
    let pda = Pubkey::new_from_array(unsafe { PDA.key });
    assert!(meta(&ix.accounts[0], proof, false, false), "[C12] proof account");
    assert!(meta(&ix.accounts[1], &pda, false, true), "[C20] report account at the address of the violation");
    assert!(meta(&ix.accounts[2], &sysvar::instructions::id(), false, false), "[C12] instructions sysvar");
    assert!(meta(&ix.accounts[3], &system_program::id(), false, false), "[C12] system program");
}

#[kani::proof]
#[kani::unwind(35)]
#[kani::stub(solana_program::pubkey::Pubkey::find_program_address, find_model)]
fn encode_report() {
    let b: [u8; 304] = kani::any();
    let d = data_of(&b);
    seed(&b);
    let proof = Pubkey::new_from_array(kani::any());
    check_report_ix(&duplicate_block_proof(&proof, &d), &b, &proof);
}

#[kani::proof]
#[kani::unwind(9)]
fn encode_close() {
    let (r, d) = (Pubkey::new_from_array(kani::any()), Pubkey::new_from_array(kani::any()));
    let ix = close_violation_report(&r, &d);
    assert!(ix.program_id == id(), "[C12] instructions are for this program");
    assert!(ix.data.len() == 1 && ix.data[0] == 0, "[C12] wire format of the close instruction");
    assert!(ix.accounts.len() == 2, "[C12] accounts of the close instruction");
    assert!(meta(&ix.accounts[0], &r, false, true), "[C12] report account of the close instruction");
    assert!(meta(&ix.accounts[1], &d, false, true), "[C12] destination account of the close instruction");
}

#[kani::proof]
#[kani::unwind(9)]
fn decode() {
    let b: &'static [u8] = any_bytes();
    let t = decode_instruction_type(b);
    assert!(t.is_ok() == (b.len() > 0 && b[0] < 2), "[C12] instruction types");
    if let Ok(t) = t {
        assert!((t == SlashingInstruction::CloseViolationReport) == (b[0] == 0), "[C12] type of the close instruction");
        assert!((t == SlashingInstruction::DuplicateBlockProof) == (b[0] == 1), "[C12] type of the report instruction");
        assert!(u8::from(t) == b[0], "[C12] type encoding");
    }
    let r = decode_instruction_data::<DuplicateBlockProofInstructionData>(b);
    assert!(r.is_ok() == (b.len() == 305), "[C12] only data of the exact length is decoded");
    if let Ok(d) = r {
        let i: usize = kani::any();
        kani::assume(i < 32);
        let j: usize = kani::any();
        kani::assume(j < 64);
        assert!(Some(u64::from(d.offset)) == le(b, 1, 8), "[C12] decoded offset");
        assert!(Some(u64::from(d.slot)) == le(b, 9, 8), "[C12] decoded slot");
        assert!(d.node_pubkey.as_ref()[i] == b[17 + i], "[C12] decoded node");
        assert!(d.reporter.as_ref()[i] == b[49 + i], "[C12] decoded reporter");
        assert!(d.destination.as_ref()[i] == b[81 + i], "[C12] decoded destination");
        assert!(d.shred_1_merkle_root.as_ref()[i] == b[113 + i], "[C12] decoded first root");
        assert!(d.shred_1_signature[j] == b[145 + j], "[C12] decoded first signature");
        assert!(d.shred_2_merkle_root.as_ref()[i] == b[209 + i], "[C12] decoded second root");
        assert!(d.shred_2_signature[j] == b[241 + j], "[C12] decoded second signature");
        kani::cover!(true, "decoded");
    }
}

/// Contract of the client's three instructions
#[kani::proof]
#[kani::unwind(35)]
#[kani::stub(solana_program::pubkey::Pubkey::find_program_address, find_model)]
#[kani::stub(solana_program::rent::Rent::minimum_balance, minimum_balance_model)]
#[kani::stub(solana_system_interface::instruction::transfer, transfer_model)]
fn build_transaction() {
    let b: [u8; 304] = kani::any();
    let d = data_of(&b);
    seed(&b);
    any_sysvars();
    let proof = Pubkey::new_from_array(kani::any());
    let funder = Pubkey::new_from_array(kani::any());
    let funded: bool = kani::any();
    // the largest shreds fill a packet of 1232 bytes
    unsafe { SYS.len = 114 + 8 + 2 * 1232 };
    let rent = Rent { lamports_per_byte_year: 1, exemption_threshold: 1.0, burn_percent: 0 };
    let ixs = duplicate_block_proof_with_sigverify_and_prefund(
        &proof,
        &d,
        if funded { Some(&funder) } else { None },
        &rent,
    );
    let pda = Pubkey::new_from_array(unsafe { PDA.key });
    // first the transfer
    let t = &ixs[0];
    assert!(t.program_id == system_program::id(), "[C13] the report account is prefunded by the system program");
    assert!(t.data.len() == 12 && le(&t.data, 0, 4) == Some(2), "[C13] ... by a transfer");
    assert!(le(&t.data, 4, 8) == Some(unsafe { SYS.min }), "[C13] ... that is enough for the largest proof");
    assert!(t.accounts.len() == 2, "[C13] accounts of the transfer");
    let payer = if funded { &funder } else { &d.reporter };
    assert!(meta(&t.accounts[0], payer, true, true), "[C13] the funder, or else the reporter, pays");
    assert!(meta(&t.accounts[1], &pda, false, true), "[C13] the report account is paid");
    // then the signature verification, over the third instruction's data
    let s = &ixs[1];
    assert!(s.program_id == solana_program::ed25519_program::id(), "[C13] signatures are verified by the ed25519 precompile");
    assert!(s.data.len() == 30, "[C13] two signatures are verified");
    assert!(s.data[0] == 2 && s.data[1] == 0, "[C13] two signatures are verified");
    let e: usize = kani::any();
    kani::assume(e < 2);
    let at = 2 + 14 * e;
    assert!(le(&s.data, at, 2) == Some(if e == 0 { 145 } else { 241 }), "[C13] the signatures in the report instruction are verified");
    assert!(le(&s.data, at + 4, 2) == Some(17), "[C13] ... for the node");
    assert!(le(&s.data, at + 8, 2) == Some(if e == 0 { 113 } else { 209 }), "[C13] ... over the roots in the report instruction");
    assert!(le(&s.data, at + 10, 2) == Some(32), "[C13] ... completely");
    assert!(
        le(&s.data, at + 2, 2) == Some(2) && le(&s.data, at + 6, 2) == Some(2) && le(&s.data, at + 12, 2) == Some(2),
        "[C13] ... which is the third of the transaction"
    );
    // then the report
    check_report_ix(&ixs[2], &b, &proof);
    assert!(DuplicateBlockProofInstructionData::sigverify_data_offset() == 113, "[C12] offset of the signature data");
}

/// Lemma: in a transaction of the client's three instructions, the program finds the
/// signatures that the report needs verified, whatever the fields are.
#[kani::proof]
#[kani::unwind(35)]
#[kani::stub(alloc::fmt::format, fmt_model)]
#[kani::stub(solana_program::log::sol_log, log_model)]
#[kani::stub(solana_program::pubkey::Pubkey::find_program_address, find_model)]
#[kani::stub(solana_program::rent::Rent::minimum_balance, minimum_balance_model)]
#[kani::stub(solana_system_interface::instruction::transfer, transfer_model)]
#[kani::stub(solana_program::sysvar::instructions::get_instruction_relative, relative_model)]
#[kani::stub(solana_program::sysvar::instructions::load_instruction_at_checked, load_at_model)]
#[kani::stub(solana_program::sysvar::instructions::load_current_index_checked, current_index_model)]
fn client_transaction() {
    use crate::state::SlashingProofData;
    let b: [u8; 304] = kani::any();
    let d = data_of(&b);
    seed(&b);
    any_sysvars();
    let proof = Pubkey::new_from_array(kani::any());
    let rent = Rent { lamports_per_byte_year: 1, exemption_threshold: 1.0, burn_percent: 0 };
    let ixs = duplicate_block_proof_with_sigverify_and_prefund(&proof, &d, None, &rent);
    let ixs: &'static [Instruction; 3] = Box::leak(Box::new(ixs));
    let cur: &'static [u8] = &ixs[2].data;
    unsafe {
        TX.index = 2;
        TX.cur = cur;
        TX.cur_program = ixs[2].program_id;
        TX.prev_program = ixs[1].program_id;
        TX.prev = &ixs[1].data;
    }
    let (mut l, mut empty): (u64, [u8; 0]) = (0, []);
    let key = Pubkey::new_from_array(kani::any());
    let ai = solana_program::account_info::AccountInfo::new(&key, false, false, &mut l, &mut empty, &key, false, 0);
    let accounts = crate::state::SlashingAccounts {
        proof_account: &ai,
        violation_pda_account: &ai,
        instructions_sysvar: &ai,
        system_program_account: &ai,
    };
    // a proof of two empty shreds: what becomes of the shreds is said elsewhere
    let r = DuplicateBlockProofData::unpack_proof_and_context(&[0; 8], cur, &accounts);
    assert!(r.is_ok(), "[C13] the program finds the signatures verified for the client's report");
    let c = r.unwrap().1;
    let i: usize = kani::any();
    kani::assume(i < 32);
    let j: usize = kani::any();
    kani::assume(j < 64);
    assert!(c.expected_pubkey.as_ref()[i] == b[16 + i], "[C13] ... for the node");
    assert!(c.expected_shred1_merkle_root.as_ref()[i] == b[112 + i], "[C13] ... the first root");
    assert!(c.expected_shred1_signature[j] == b[144 + j], "[C13] ... the first signature");
    assert!(c.expected_shred2_merkle_root.as_ref()[i] == b[208 + i], "[C13] ... the second root");
    assert!(c.expected_shred2_signature[j] == b[240 + j], "[C13] ... the second signature");
}
