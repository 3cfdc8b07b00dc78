use super::*;
use crate::{get_violation_report_address, state::ProofType, verif::*};

/// Contract of the public address derivation
#[kani::proof]
#[kani::unwind(35)]
#[kani::stub(solana_program::pubkey::Pubkey::find_program_address, find_model)]
fn public_address() {
    any_pda();
    let node: [u8; 32] = kani::any();
    let slot: u64 = kani::any();
    let kind = if kani::any() { ProofType::DuplicateBlockProof } else { ProofType::InvalidType };
    unsafe {
        PDA.seeds[..32].copy_from_slice(&node);
        PDA.seeds[32..40].copy_from_slice(&slot.to_le_bytes());
        PDA.seeds[40] = if kind == ProofType::DuplicateBlockProof { 1 } else { 0 };
        let (key, bump) = get_violation_report_address(&Pubkey::new_from_array(node), slot, kind);
        assert!(key.to_bytes() == PDA.key && bump == PDA.bump, "[C20] the address is that of node, slot and kind of violation");
    }
}
