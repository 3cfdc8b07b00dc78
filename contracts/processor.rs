use super::*;
use crate::{error::SlashingError, verif::*};

/// A kind of proof of which nothing is known but the trait
struct AnyProof;
struct ProofGhost {
    magic: [u8; 16],
    unpacks: bool,
    verifies: bool,
    len: usize,
    packed: &'static [u8],
    data: (*const u8, usize),
    ix: (*const u8, usize),
    slot: u64,
    pubkey: [u8; 32],
    verified: usize,
}
static mut P: ProofGhost = ProofGhost {
    magic: *b"ghost of a proof",
    unpacks: false,
    verifies: false,
    len: 0,
    packed: &[],
    data: (std::ptr::null(), 0),
    ix: (std::ptr::null(), 0),
    slot: 0,
    pubkey: [0; 32],
    verified: 0,
};
impl<'a> SlashingProofData<'a> for AnyProof {
    const PROOF_TYPE: ProofType = ProofType::DuplicateBlockProof;
    type Context = u32;
    fn packed_len(&self) -> usize {
        unsafe { P.packed.len() }
    }
    fn pack_proof(self) -> Vec<u8> {
        unsafe { Vec::from_raw_parts(P.packed.as_ptr() as *mut u8, P.packed.len(), 0) }
    }
    fn unpack_proof_and_context<'b>(
        data: &'a [u8],
        ix: &'a [u8],
        _accounts: &SlashingAccounts<'a, 'b>,
    ) -> Result<(Self, u32), SlashingError> {
        unsafe {
            P.data = (data.as_ptr(), data.len());
            P.ix = (ix.as_ptr(), ix.len());
            if P.unpacks {
                Ok((AnyProof, 77))
            } else {
                Err(SlashingError::InvalidSignatureVerification)
            }
        }
    }
    fn verify_proof(&self, context: u32, slot: u64, pubkey: &Pubkey) -> Result<(), SlashingError> {
        unsafe {
            assert!(context == 77, "[C01] the proof is checked in the context of its signatures");
            P.slot = slot;
            P.pubkey = pubkey.to_bytes();
            P.verified += 1;
            if P.verifies {
                Ok(())
            } else {
                Err(SlashingError::InvalidPayloadProof)
            }
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum Part {
    Verdict,
    Header,
    Proof,
    Repeated,
}
/// Contract of recording a violation, for any kind of proof.  What an arbitrary byte
/// of an account is afterwards is asked of one `part` at a time, which keeps the proofs small.
fn check_report(part: Part) {
    any_sysvars();
    any_pda();
    let rb: [u8; 114] = kani::any();
    let (mut reporter, mut destination, mut pubkey) = ([0u8; 32], [0u8; 32], [0u8; 32]);
    reporter.copy_from_slice(&rb[1..33]);
    destination.copy_from_slice(&rb[33..65]);
    pubkey.copy_from_slice(&rb[73..105]);
    let epoch = le(&rb, 65, 8).unwrap();
    let slot = le(&rb, 105, 8).unwrap();
    let report = ViolationReport {
        version: rb[0],
        reporter: Pubkey::new_from_array(reporter),
        destination: Pubkey::new_from_array(destination),
        epoch: PodEpoch::from(epoch),
        pubkey: Pubkey::new_from_array(pubkey),
        slot: spl_pod::primitives::PodU64::from(slot),
        violation_type: rb[113],
    };
    let data: &'static [u8] = any_bytes();
    let input: &'static [u8] = any_bytes();
    let (key, owner): ([u8; 32], [u8; 32]) = (kani::any(), kani::any());
    let (lamports, len): (u64, usize) = (kani::any(), kani::any());
    let pda = account_of(key, owner, lamports, len);
    let other = any_account();
    let accounts = SlashingAccounts {
        proof_account: &other,
        violation_pda_account: &pda,
        instructions_sysvar: &other,
        system_program_account: &other,
    };
    unsafe {
        PDA.seeds[..32].copy_from_slice(&pubkey);
        PDA.seeds[32..40].copy_from_slice(&rb[105..113]);
        PDA.seeds[40] = rb[113];
        P.unpacks = kani::any();
        P.verifies = kani::any();
        P.packed = any_bytes();
        let plen = P.packed.len();
        let size = 114 + plen;
        SYS.len = size;
        CPI.fails = kani::any();
        let first = if len > 0 { pda.data.borrow()[0] } else { 0 };
        let (olen, olamports, oowner) = (other.data_len(), other.lamports(), other.owner.to_bytes());
        let w: usize = kani::any();
        let byte = if w < olen { other.data.borrow()[w] } else { 0 };
        let before = if part == Part::Repeated && w < len { pda.data.borrow()[w] } else { 0 };
        let r = verify_proof_data::<AnyProof>(report, &accounts, data, input);
        let id = crate::id().to_bytes();
        let system = solana_program::system_program::id().to_bytes();
        let statute = !SYS.clock_fails
            && !SYS.schedule_fails
            && SYS.slot >= slot
            && SYS.slot - slot <= SYS.slots_per_epoch;
        let at_pda = key == PDA.key;
        let reported = len > 0 && owner == id && first > 0;
        let funded = !SYS.rent_fails && lamports >= SYS.min;
        let to_self = destination == PDA.key;
        if reported {
            assert!(r.is_err() && pda.data_len() == len && pda.lamports() == lamports, "[C09] a repeated report does not change the report");
            if part == Part::Repeated && w < len {
                assert!(pda.data.borrow()[w] == before, "[C09] a repeated report does not change the report");
            }
        }
        if r.is_ok() {
            let known = !SYS.clock_fails && !SYS.schedule_fails;
            assert!(known && SYS.slot >= slot, "[C07][C16] no violation is reported before its slot");
            assert!((SYS.slot - slot) as u128 <= 2 * SYS.slots_per_epoch as u128, "[C16] reports are at most two epochs after the violation");
            assert!(statute, "[C07][C16] reports are at most an epoch after the violation, and not before it");
            assert!(P.unpacks && P.verified == 1 && P.verifies, "[C02] only verified proofs are reported");
            assert!(P.data == (data.as_ptr(), data.len()), "[C02] the proof verified is the one submitted");
            assert!(P.ix == (input.as_ptr(), input.len()), "[C01] the instruction data is the one submitted");
            assert!(P.slot == slot, "[C02] the slot verified is the one reported");
            assert!(P.pubkey == pubkey, "[C01] the node verified is the one reported");
            assert!(at_pda, "[C09][C20] the report is stored at the address of the violation");
            assert!(!reported, "[C09] a violation is reported once");
            assert!(funded, "[C09] the report account is prefunded for its size");
            assert!(!to_self, "[C09] the destination is not the report account");
            assert!(pda.owner.to_bytes() == id, "[C08] the report belongs to the program");
            assert!(pda.data_len() == size, "[C08] report size");
            assert!(pda.lamports() == lamports, "[C08] lamports of the report account");
            assert!(
                other.data_len() == olen && other.lamports() == olamports && other.owner.to_bytes() == oowner,
                "[C08] the other accounts are as they were"
            );
            if w < olen {
                assert!(other.data.borrow()[w] == byte, "[C08] the other accounts are as they were");
            }
            if part == Part::Header && w < 114 {
                if w >= 65 && w < 73 {
                    assert!(pda.data.borrow()[w] == rb[w], "[C08][C16] the epoch is stored");
                }
                assert!(pda.data.borrow()[w] == rb[w], "[C08] report contents");
            }
            if part == Part::Proof && w < plen {
                assert!(pda.data.borrow()[114 + w] == P.packed[w], "[C08] contents of the proof in the report");
            }
        } else {
            let must = statute
                && P.unpacks
                && P.verifies
                && at_pda
                && !reported
                && !to_self
                && funded
                && !CPI.fails
                && (owner == system || owner == id)
                && size <= len + 10240;
            assert!(!must, "[C03] a verified proof of a new violation is recorded");
        }
        kani::cover!(r.is_ok(), "recorded");
        kani::cover!(r.is_err() && statute && at_pda, "rejected");
    }
}

macro_rules! report {
    ($name:ident, $part:ident) => {
        #[kani::proof]
        #[kani::unwind(35)]
        #[kani::stub(alloc::fmt::format, fmt_model)]
        #[kani::stub(solana_program::log::sol_log, log_model)]
        #[kani::stub(<solana_program::clock::Clock as solana_program::sysvar::Sysvar>::get, clock_model)]
        #[kani::stub(<solana_program::epoch_schedule::EpochSchedule as solana_program::sysvar::Sysvar>::get, schedule_model)]
        #[kani::stub(<solana_program::rent::Rent as solana_program::sysvar::Sysvar>::get, rent_model)]
        #[kani::stub(solana_program::rent::Rent::minimum_balance, minimum_balance_model)]
        #[kani::stub(solana_program::pubkey::Pubkey::find_program_address, find_model)]
        #[kani::stub(solana_system_interface::instruction::assign, assign_model)]
        #[kani::stub(solana_program::program::invoke_signed_unchecked, invoke_model)]
        fn $name() {
            check_report(Part::$part);
        }
    };
}
report!(report, Verdict);
report!(report_header, Header);
report!(report_proof, Proof);
report!(report_repeated, Repeated);

// ---- the instructions ----------------------------------------------------
/// What `process_instruction` passes on
struct CallGhost {
    magic: [u8; 16],
    calls: usize,
    ok: bool,
    report: [u8; 114],
    data: (*const u8, usize),
    ix: (*const u8, usize),
    keys: [*const Pubkey; 4],
}
static mut CALL: CallGhost = CallGhost {
    magic: *b"ghost of a call!",
    calls: 0,
    ok: false,
    report: [0; 114],
    data: (std::ptr::null(), 0),
    ix: (std::ptr::null(), 0),
    keys: [std::ptr::null(); 4],
};
/// `verify_proof_data` by its contract: whether it succeeds is established by the
/// `report` harness; here it is arbitrary and the arguments are recorded.
fn verify_proof_data_contract<'a, 'b, T>(
    report: ViolationReport,
    accounts: &SlashingAccounts<'a, 'b>,
    proof_data: &'a [u8],
    instruction_data: &'a [u8],
) -> ProgramResult
where
    T: SlashingProofData<'a>,
{
    unsafe {
        CALL.calls += 1;
        let rb = &mut *std::ptr::addr_of_mut!(CALL.report);
        rb[0] = report.version;
        rb[1..33].copy_from_slice(report.reporter.as_ref());
        rb[33..65].copy_from_slice(report.destination.as_ref());
        rb[65..73].copy_from_slice(&report.epoch.0);
        rb[73..105].copy_from_slice(report.pubkey.as_ref());
        rb[105..113].copy_from_slice(&report.slot.0);
        rb[113] = report.violation_type;
        CALL.data = (proof_data.as_ptr(), proof_data.len());
        CALL.ix = (instruction_data.as_ptr(), instruction_data.len());
        CALL.keys = [
            accounts.proof_account.key,
            accounts.violation_pda_account.key,
            accounts.instructions_sysvar.key,
            accounts.system_program_account.key,
        ];
        if CALL.ok {
            Ok(())
        } else {
            Err(ProgramError::Custom(0))
        }
    }
}

/// Contract of the instruction that reports a violation, from the raw input
unsafe fn check_instruction(moves: bool) {
    any_sysvars();
    let input: &'static [u8] = any_bytes();
    kani::assume(input.len() == 0 || input[0] != 0);
    let proof_len: usize = kani::any();
    let accounts = [
        account_of(kani::any(), kani::any(), kani::any(), proof_len),
        any_account(),
        any_account(),
        any_account(),
        any_account(),
    ];
    let n: usize = kani::any();
    kani::assume(n <= 5);
    unsafe {
        CALL.ok = kani::any();
        let mut lamports = [0u64; 5];
        if moves {
            lamports = std::array::from_fn(|i| accounts[i].lamports());
        }
        let r = process_instruction(&crate::id(), &accounts[..n], input);
        kani::cover!(r.is_ok(), "executed");
        if moves {
            let same = |i: usize| accounts[i].lamports() == lamports[i];
            assert!(same(0) && same(1) && same(2) && same(3) && same(4), "[C08] reporting moves no lamports");
            return;
        }
        let shape = input.len() == 305 && input[0] == 1;
        let sysvars = n >= 4
            && *accounts[2].key == solana_program::sysvar::instructions::id()
            && *accounts[3].key == solana_program::system_program::id();
        if r.is_ok() {
            assert!(input.len() == 305 && input[0] == 1, "[C12] only complete report instructions are executed");
            assert!(sysvars, "[C14] the instructions sysvar and system program are the real ones");
            assert!(CALL.calls == 1 && CALL.ok, "[C02] a report is made only for a verified proof");
        }
        if CALL.calls > 0 {
            assert!(shape, "[C12] only complete report instructions are executed");
            assert!(sysvars, "[C14] the instructions sysvar and system program are the real ones");
            assert!(
                CALL.keys == [accounts[0].key as *const _, accounts[1].key, accounts[2].key, accounts[3].key],
                "[C14] accounts are taken in the documented order"
            );
            let i: usize = kani::any();
            kani::assume(i < 114);
            let clock = SYS.epoch.to_le_bytes();
            let want = if i == 0 {
                1
            } else if i < 33 {
                input[49 + (i - 1)]
            } else if i < 65 {
                input[81 + (i - 33)]
            } else if i < 73 {
                clock[i - 65]
            } else if i < 105 {
                input[17 + (i - 73)]
            } else if i < 113 {
                input[9 + (i - 105)]
            } else {
                1
            };
            if i >= 65 && i < 73 {
                assert!(CALL.report[i] == want && !SYS.clock_fails, "[C08][C16] the report is dated by the clock");
            }
            assert!(CALL.report[i] == want, "[C08] the report says what was submitted, in the current epoch");
            assert!(!SYS.clock_fails, "[C08] the epoch is the clock's");
            let offset = le(input, 1, 8).unwrap() as usize;
            assert!(offset <= proof_len, "[C12] the proof starts inside the proof account");
            let d = accounts[0].data.borrow();
            assert!(CALL.data == (d.as_ptr().add(offset), proof_len - offset), "[C12] the proof starts at the given offset");
            assert!(CALL.ix == (input.as_ptr(), input.len()), "[C01] the instruction data is the one received");
        }
        if r.is_err() {
            let offset = le(input, 1, 8);
            let must = shape && sysvars && !SYS.clock_fails && offset.unwrap() <= proof_len as u64 && CALL.ok;
            assert!(!must, "[C03] complete report instructions are executed");
        }
    }
}

macro_rules! instruction {
    ($name:ident, $moves:literal) => {
        #[kani::proof]
        #[kani::unwind(9)]
        #[kani::solver(minisat)]
        #[kani::stub(alloc::fmt::format, fmt_model)]
        #[kani::stub(solana_program::log::sol_log, log_model)]
        #[kani::stub(<solana_program::clock::Clock as solana_program::sysvar::Sysvar>::get, clock_model)]
        #[kani::stub(crate::processor::verify_proof_data, verify_proof_data_contract)]
        fn $name() {
            unsafe { check_instruction($moves) }
        }
    };
}
instruction!(instruction_report, false);
instruction!(instruction_report_lamports, true);

/// Contract of the instruction that closes a report, from the raw input
fn check_close(same: bool) {
    any_sysvars();
    let input: &'static [u8] = any_bytes();
    kani::assume(input.len() > 0 && input[0] == 0);
    let (key, owner): ([u8; 32], [u8; 32]) = (kani::any(), kani::any());
    let (lamports, len): (u64, usize) = (kani::any(), kani::any());
    let report = account_of(key, owner, lamports, len);
    let (dkey, downer, dlamports, dlen) = if same {
        (key, owner, lamports, len)
    } else {
        (kani::any(), kani::any(), kani::any(), kani::any())
    };
    let dest = if same { report.clone() } else { account_of(dkey, downer, dlamports, dlen) };
    // distinct accounts have distinct keys, and the runtime's lamports do not overflow
    kani::assume(same || key != dkey);
    kani::assume(same || lamports.checked_add(dlamports).is_some());
    let destination_at = 33;
    let (rdest, created) = if len >= 114 {
        let d = report.data.borrow();
        let mut b = [0u8; 32];
        b.copy_from_slice(&d[destination_at..destination_at + 32]);
        (b, le(&d, 65, 8).unwrap())
    } else {
        ([0; 32], 0)
    };
    let at: usize = kani::any();
    let byte = if at < dlen { dest.data.borrow()[at] } else { 0 };
    let accounts = [report.clone(), dest.clone()];
    let n: usize = kani::any();
    kani::assume(n <= 2);
    let r = process_instruction(&crate::id(), &accounts[..n], input);
    let id = crate::id().to_bytes();
    unsafe {
        let aged = !SYS.clock_fails && SYS.epoch >= created && (SYS.epoch - created >= 3 || SYS.epoch == u64::MAX);
        if r.is_ok() {
            assert!(n == 2, "[C10][C14] both accounts are given");
            assert!(owner == id && len >= 114, "[C10][C14] only reports of this program are closed");
            assert!(!SYS.clock_fails && (SYS.epoch >= created.saturating_add(2)), "[C16] reports are closed at least 2 epochs after their creation");
            assert!(aged, "[C10][C16] reports are closed at least 3 epochs after their creation");
            assert!(dkey == rdest, "[C10] the lamports go to the report's destination");
            let total = if same { report.lamports() } else { report.lamports() as u64 + dest.lamports() };
            let before = if same { lamports } else { lamports + dlamports };
            assert!(total == before, "[C11] closing conserves lamports");
            if !same {
                assert!(report.lamports() == 0, "[C11] a closed report keeps no lamports");
                assert!(dest.lamports() == lamports + dlamports, "[C11] the destination gets all lamports");
                assert!(dest.data_len() == dlen && dest.owner.to_bytes() == downer, "[C11] closing does not touch the destination's data");
                if at < dlen {
                    assert!(dest.data.borrow()[at] == byte, "[C11] closing does not touch the destination's data");
                }
            }
            assert!(report.data_len() == 0, "[C11] a closed report has no data");
            assert!(
                report.owner.to_bytes() == solana_program::system_program::id().to_bytes(),
                "[C11] a closed report goes back to the system program"
            );
        } else {
            let must = n == 2 && owner == id && len >= 114 && aged && dkey == rdest;
            assert!(!must, "[C11] old reports can be closed to their destination");
        }
    }
    kani::cover!(r.is_ok(), "closed");
}
/// Closing a report looks at no proof
fn unpack_never<'a: 'a, 'b>(
    _data: &'a [u8],
    _ix: &'a [u8],
    _accounts: &SlashingAccounts<'a, 'b>,
) -> Result<
    (
        crate::duplicate_block_proof::DuplicateBlockProofData<'a>,
        <crate::duplicate_block_proof::DuplicateBlockProofData<'a> as SlashingProofData<'a>>::Context,
    ),
    SlashingError,
> {
    assert!(false, "[C10][C12] closing a report looks at no proof");
    kani::assume(false);
    Err(SlashingError::InvalidSignatureVerification)
}
macro_rules! close {
    ($name:ident, $same:literal) => {
        #[kani::proof]
        #[kani::unwind(9)]
        #[kani::solver(minisat)]
        #[kani::stub(alloc::fmt::format, fmt_model)]
        #[kani::stub(solana_program::log::sol_log, log_model)]
        #[kani::stub(<solana_program::clock::Clock as solana_program::sysvar::Sysvar>::get, clock_model)]
        #[kani::stub(<crate::duplicate_block_proof::DuplicateBlockProofData as crate::state::SlashingProofData>::unpack_proof_and_context, unpack_never)]
        fn $name() {
            check_close($same);
        }
    };
}
close!(instruction_close, false);
close!(instruction_close_to_itself, true);
