use super::*;
use crate::verif::*;

/// Contract of the kinds of proof and of the stored report's fields
#[kani::proof]
#[kani::unwind(9)]
fn proof_type() {
    let b: u8 = kani::any();
    let t = ProofType::from(b);
    assert!((t == ProofType::DuplicateBlockProof) == (b == 1), "[C17] only 1 is a duplicate block");
    assert!((t == ProofType::InvalidType) == (b != 1), "[C17] anything else is invalid");
    assert!(u8::from(t) == if b == 1 { 1 } else { 0 }, "[C17] encoding of the kind of proof");
    assert!(ProofType::DuplicateBlockProof.proof_account_length() == 8 + 2 * 1232, "[C17] proof account length");
}

/// Contract of the names of the kinds of proof, over every string
#[kani::proof]
#[kani::unwind(18)]
fn proof_type_names() {
    let s: &'static [u8] = any_bytes();
    let w: usize = kani::any();
    unsafe {
        VERIF_CMP[CMP_W] = w;
        let r = std::str::from_utf8_unchecked(s).parse::<ProofType>();
        let is = |n: &[u8]| s.len() == n.len() && (w >= n.len() || s[w] == n[w]);
        let eq = |n: &[u8]| {
            let mut e = s.len() == n.len();
            let mut i = 0;
            while e && i < n.len() {
                e = s[i] == n[i];
                i += 1;
            }
            e
        };
        match r {
            Ok(ProofType::DuplicateBlockProof) => assert!(is(b"duplicate block"), "[C17] name of duplicate block proofs"),
            Ok(ProofType::InvalidType) => assert!(is(b"invalid"), "[C17] name of invalid proofs"),
            Err(_) => assert!(!eq(b"duplicate block") && !eq(b"invalid"), "[C17] names can be parsed back"),
        }
        kani::cover!(r.is_ok(), "a name");
        kani::cover!(r.is_err(), "another string");
    }
    let i: usize = kani::any();
    let n = ProofType::DuplicateBlockProof.violation_str().as_bytes();
    assert!(n.len() == 15 && (i >= 15 || n[i] == b"duplicate block"[i]), "[C17] name of duplicate block proofs");
    let n = ProofType::InvalidType.violation_str().as_bytes();
    assert!(n.len() == 7 && (i >= 7 || n[i] == b"invalid"[i]), "[C17] name of invalid proofs");
}

#[kani::proof]
#[kani::unwind(9)]
fn report_fields() {
    let r = ViolationReport {
        version: kani::any(),
        reporter: Pubkey::new_from_array(kani::any()),
        destination: Pubkey::new_from_array(kani::any()),
        epoch: PodEpoch::from(kani::any::<u64>()),
        pubkey: Pubkey::new_from_array(kani::any()),
        slot: PodSlot::from(kani::any::<u64>()),
        violation_type: kani::any(),
    };
    let b = bytemuck::bytes_of(&r);
    assert!(b.len() == 114, "[C08] size of a report");
    let i: usize = kani::any();
    kani::assume(i < 32);
    assert!(b[0] == r.version && ViolationReport::version(b) == r.version, "[C08] stored version");
    assert!(b[1 + i] == r.reporter.as_ref()[i], "[C08] stored reporter");
    assert!(b[33 + i] == r.destination.as_ref()[i], "[C08] stored destination");
    assert!(le(b, 65, 8) == Some(r.epoch()), "[C08] stored epoch");
    assert!(b[73 + i] == r.pubkey.as_ref()[i], "[C08] stored node");
    assert!(le(b, 105, 8) == Some(r.slot()), "[C08] stored slot");
    assert!(b[113] == r.violation_type, "[C08] stored kind of violation");
    assert!((r.violation_type() == ProofType::DuplicateBlockProof) == (b[113] == 1), "[C17] kind of violation");
    assert!(ViolationReport::VERSION == 1, "[C08] the current version");
    // sizes
    let (x, y): (&'static [u8], &'static [u8]) = (any_bytes(), any_bytes());
    let p = DuplicateBlockProofData { shred1: x, shred2: y };
    assert!(ViolationReport::packed_len(&p) == 114 + 8 + x.len() + y.len(), "[C08] size of a report with its proof");
    assert!(ViolationReport::size::<DuplicateBlockProofData>() == 114 + 8 + 2 * 1232, "[C13] size of the largest report");
}

/// Contract of the error codes that callers see: the order in which the errors
/// are documented, without gaps
#[kani::proof]
#[kani::unwind(9)]
fn error_codes() {
    use crate::error::SlashingError as E;
    macro_rules! codes {
        ($($e:ident)*) => {{
            let mut n = 0u32;
            $(
                assert!(ProgramError::from(E::$e) == ProgramError::Custom(n), "[C17] error codes");
                assert!(<E as num_traits::FromPrimitive>::from_u32(n) == Some(E::$e), "[C17] error codes can be read back");
                n += 1;
            )*
            n
        }};
    }
    let n = codes!(
        CloseViolationReportTooSoon DestinationAddressIsReportAccount DuplicateReport
        ExceedsStatuteOfLimitations InvalidDestinationAccount InvalidShredVariant InvalidMerkleShred
        InvalidPayloadProof InvalidErasureMetaConflict InvalidInstruction InvalidLastIndexConflict
        InvalidViolationReportAcccount InvalidShredVersion InvalidSignatureVerification LegacyShreds
        MissingInstructionsSysvar MissingSignatureVerification MissingSystemProgramAccount
        ProofBufferDeserializationError ProofBufferTooSmall ReportAccountNotPrefunded
        ShredDeserializationError ShredTypeMismatch SignatureVerificationMismatch SlotMismatch
    );
    // whatever else there is has a code of its own
    let c: u32 = kani::any();
    if let Some(e) = <E as num_traits::FromPrimitive>::from_u32(c) {
        assert!(ProgramError::from(e) == ProgramError::Custom(c), "[C17] every error has its own code");
    }
    kani::cover!(c < n, "a known error");
}

/// The contracts assumed of the system program's instructions are what its interface
/// crate builds
#[kani::proof]
#[kani::unwind(35)]
fn system_instructions() {
    let (a, b) = (Pubkey::new_from_array(kani::any()), Pubkey::new_from_array(kani::any()));
    let n: u64 = kani::any();
    let same = |x: solana_program::instruction::Instruction, y: solana_program::instruction::Instruction| {
        let i: usize = kani::any();
        x.program_id == y.program_id && x.accounts == y.accounts && x.data.len() == y.data.len() && (i >= x.data.len() || x.data[i] == y.data[i])
    };
    assert!(same(solana_system_interface::instruction::assign(&a, &b), crate::verif::assign_model(&a, &b)), "[C09] the assign instruction");
    assert!(same(solana_system_interface::instruction::transfer(&a, &b, n), crate::verif::transfer_model(&a, &b, n)), "[C13] the transfer instruction");
}

/// The contract assumed of the instructions sysvar is what its crate computes from the account
/// that the runtime writes: instruction `i` starts at the `i`th offset of the table, with its
/// accounts (bounded: at most 1), its program and its data, and the last two bytes of
/// the account are the current index
#[kani::proof]
#[kani::unwind(3)]
#[kani::solver(minisat)]
fn instructions_sysvar() {
    use solana_program::sysvar::instructions as sysvar;
    let key: [u8; 32] = kani::any();
    let account = crate::verif::account_of(key, kani::any(), 0, kani::any());
    let real = *account.key == sysvar::id();
    let relative: i64 = kani::any();
    let len = account.data_len();
    kani::assume(len >= 4);
    let at = |off: usize| crate::verif::le(&account.data.borrow(), off, 2).map(|x| x as usize);
    let current = at(len - 2).unwrap();
    let i = current as i128 + relative as i128;
    let inside = i >= 0 && i < at(0).unwrap() as i128;
    // where the instruction is, if the account has it
    let mut place = None;
    if inside {
        if let Some(start) = at(2 + 2 * i as usize) {
            if let Some(accounts) = at(start) {
                kani::assume(accounts <= 1);
                let program = start + 2 + 33 * accounts;
                if let Some(n) = at(program + 32) {
                    if len - (program + 34) >= n {
                        place = Some((program, n));
                    }
                }
            }
        }
    }
    let check = |r: Result<solana_program::instruction::Instruction, ProgramError>| match r {
        Ok(ix) => {
            assert!(real && inside, "[C01] the instructions sysvar reports instructions of the transaction");
            let (program, n) = place.unwrap();
            let w: usize = kani::any();
            kani::assume(w < 32);
            let data = account.data.borrow();
            assert!(ix.program_id.as_ref()[w] == data[program + w], "[C01] the program of the instruction");
            assert!(ix.data.len() == n, "[C01] the data of the instruction");
            let w: usize = kani::any();
            kani::assume(w < n);
            assert!(ix.data[w] == data[program + 34 + w], "[C01] the data of the instruction");
        }
        Err(_) => assert!(!real || place.is_none(), "[C03] the instructions of the transaction are found"),
    };
    if kani::any() {
        check(sysvar::get_instruction_relative(relative, &account));
    } else {
        kani::assume(i >= 0);
        check(sysvar::load_instruction_at_checked(i as usize, &account));
    }
    match sysvar::load_current_index_checked(&account) {
        Ok(c) => assert!(real && c as usize == current, "[C01] the index of the instruction"),
        Err(_) => assert!(!real, "[C03] the index of the instruction is found"),
    }
    kani::cover!(place.is_some() && real, "an instruction");
}
