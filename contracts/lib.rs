// Shared part of the contracts: symbolic inputs, ghost state, the contracts
// assumed of the dependencies (solana-program and friends).
use solana_program::{
    account_info::AccountInfo,
    hash::Hash,
};

/// Upper end of the symbolic buffer lengths.  It exceeds every length the
/// runtime can produce (accounts are at most 10 MiB); no loop is unrolled over
/// it.
pub(crate) const MAX_LEN: usize = 1 << 40;

/// A byte buffer with arbitrary contents and an arbitrary length
pub(crate) fn any_bytes() -> &'static [u8] {
    any_bytes_mut()
}
pub(crate) fn any_bytes_mut() -> &'static mut [u8] {
    let len: usize = kani::any();
    kani::assume(len <= MAX_LEN);
    any_bytes_of(len)
}
pub(crate) fn any_bytes_of(len: usize) -> &'static mut [u8] {
    if len == 0 {
        return &mut [];
    }
    unsafe {
        let p = std::alloc::alloc(std::alloc::Layout::from_size_align_unchecked(len, 1));
        kani::assume(!p.is_null());
        std::slice::from_raw_parts_mut(p, len)
    }
}

/// Little-endian unsigned number of `n` bytes at `off`, if it is inside `p`
pub(crate) fn le(p: &[u8], off: usize, n: usize) -> Option<u64> {
    if off > p.len() || p.len() - off < n {
        return None;
    }
    let mut v = 0u64;
    let mut i = 0;
    while i < n {
        v |= (p[off + i] as u64) << (8 * i);
        i += 1;
    }
    Some(v)
}

pub(crate) fn fmt_model(_a: std::fmt::Arguments<'_>) -> String {
    String::new()
}
pub(crate) fn log_model(_m: &str) {}

// ---- hashing -----------------------------------------------------------
/// Contract assumed of `hashv`: it digests the concatenation of its arguments
/// and the digest is arbitrary (a fresh one per call).  The ghost state observes
/// the stream of one arbitrary call (number `k`) at one arbitrary position
/// (`w`), one arbitrary byte (`d`) of the digest before it, and one
/// arbitrary byte (`r`) of the last digest; as all four are universally
/// quantified, what is proved of them holds of every call and every byte.
pub(crate) struct HashGhost {
    /// Kani identifies a static's memory by its initial bytes: a distinctive value
    /// keeps ghost state apart from the constants of the code
    magic: [u8; 16],
    pub k: usize,
    pub w: usize,
    pub d: usize,
    pub r: usize,
    pub n: usize,
    pub len: usize,
    pub byte: u8,
    pub prev: u8,
    pub last: u8,
}
pub(crate) static mut H: HashGhost = HashGhost {
    magic: *b"ghost of hashv!!",
    k: 0,
    w: 0,
    d: 0,
    r: 0,
    n: 0,
    len: 0,
    byte: 0,
    prev: 0,
    last: 0,
};

pub(crate) fn hashv_model(vals: &[&[u8]]) -> Hash {
    unsafe {
        if H.n == H.k {
            let mut total = 0usize;
            let mut i = 0;
            while i < vals.len() {
                let v = vals[i];
                if H.w >= total && H.w - total < v.len() {
                    H.byte = v[H.w - total];
                }
                total += v.len();
                i += 1;
            }
            H.len = total;
        }
        let out: [u8; 32] = kani::any();
        if H.n + 1 == H.k {
            H.prev = out[H.d];
        }
        H.last = out[H.r];
        H.n += 1;
        Hash::new_from_array(out)
    }
}

// ---- specification of a merkle shred, from the payload bytes alone ----------
#[derive(Clone, Copy, PartialEq, Eq)]
pub(crate) struct Lay {
    pub code: bool,
    pub n: usize,
    pub chained: bool,
    pub resigned: bool,
}
pub(crate) fn lay(p: &[u8]) -> Option<Lay> {
    if p.len() <= 64 {
        return None;
    }
    let v = p[64];
    if v == 0x5a || v == 0xa5 {
        return None;
    }
    let n = (v & 15) as usize;
    match v >> 4 {
        4 => Some(Lay { code: true, n, chained: false, resigned: false }),
        6 => Some(Lay { code: true, n, chained: true, resigned: false }),
        7 => Some(Lay { code: true, n, chained: true, resigned: true }),
        8 => Some(Lay { code: false, n, chained: false, resigned: false }),
        9 => Some(Lay { code: false, n, chained: true, resigned: false }),
        11 => Some(Lay { code: false, n, chained: true, resigned: true }),
        _ => None,
    }
}
impl Lay {
    /// end of what the leader produced
    pub fn end(&self) -> usize {
        (if self.code { 1228 } else { 1203 }) - (if self.resigned { 64 } else { 0 })
    }
    pub fn proof_at(&self) -> usize {
        self.end() - 20 * self.n
    }
}
pub(crate) fn f_slot(p: &[u8]) -> Option<u64> {
    le(p, 65, 8)
}
pub(crate) fn f_index(p: &[u8]) -> Option<u64> {
    le(p, 73, 4)
}
pub(crate) fn f_version(p: &[u8]) -> Option<u64> {
    le(p, 77, 2)
}
pub(crate) fn f_fec(p: &[u8]) -> Option<u64> {
    le(p, 79, 4)
}
pub(crate) fn f_num_data(p: &[u8]) -> Option<u64> {
    le(p, 83, 2)
}
pub(crate) fn f_num_code(p: &[u8]) -> Option<u64> {
    le(p, 85, 2)
}
pub(crate) fn f_position(p: &[u8]) -> Option<u64> {
    le(p, 87, 2)
}
pub(crate) fn f_last(p: &[u8]) -> Option<bool> {
    if p.len() <= 85 {
        None
    } else {
        Some(p[85] & 0xc0 == 0xc0)
    }
}
/// The leaf's place in its erasure batch
pub(crate) fn f_leaf(p: &[u8]) -> Option<u64> {
    f_leaf_of(p, &lay(p)?)
}
pub(crate) fn f_leaf_of(p: &[u8], l: &Lay) -> Option<u64> {
    if l.code {
        Some(f_num_data(p)? + f_position(p)?)
    } else {
        f_index(p)?.checked_sub(f_fec(p)?)
    }
}
/// Complete merkle shred whose leaf lies inside its tree
pub(crate) fn well_formed(p: &[u8]) -> bool {
    match lay(p) {
        None => false,
        Some(l) => {
            p.len() >= l.end()
                && match f_leaf(p) {
                    None => false,
                    Some(i) => i >> l.n == 0,
                }
        }
    }
}

// Ghost state of the contract of memcmp, see memcmp.c
#[no_mangle]
pub(crate) static mut VERIF_CMP: [usize; 4] = [0x6768_6f73_745f_636d, 0x7021_2121_2121_2121, 0, 0];
pub(crate) const CMP_W: usize = 2;
pub(crate) const CMP_D: usize = 3;

// ---- the instructions of the transaction ---------------------------------
/// Ghost transaction: the top level instruction at the current index, the one
/// before it, and (for any other position) an arbitrary one.  The contracts
/// assumed of the instructions sysvar are that it reports these, or fails.
pub(crate) struct TxGhost {
    magic: [u8; 16],
    pub index: u16,
    pub cur: &'static [u8],
    pub cur_program: solana_program::pubkey::Pubkey,
    pub prev: &'static [u8],
    pub prev_program: solana_program::pubkey::Pubkey,
    pub fail: bool,
}
pub(crate) static mut TX: TxGhost = TxGhost {
    magic: *b"ghost of the tx!",
    index: 0,
    cur: &[],
    cur_program: solana_program::pubkey::Pubkey::new_from_array([0; 32]),
    prev: &[],
    prev_program: solana_program::pubkey::Pubkey::new_from_array([0; 32]),
    fail: false,
};
fn tx_instruction(relative: i64) -> solana_program::instruction::Instruction {
    unsafe {
        let (program_id, data) = if relative == 0 {
            (TX.cur_program, TX.cur)
        } else if relative == -1 {
            (TX.prev_program, TX.prev)
        } else {
            (solana_program::pubkey::Pubkey::new_from_array(kani::any()), any_bytes() as &[u8])
        };
        // capacity 0: the ghost transaction outlives the copy
        let data = Vec::from_raw_parts(data.as_ptr() as *mut u8, data.len(), 0);
        solana_program::instruction::Instruction { program_id, accounts: Vec::new(), data }
    }
}
pub(crate) fn relative_model(
    relative: i64,
    _sysvar: &AccountInfo,
) -> Result<solana_program::instruction::Instruction, solana_program::program_error::ProgramError> {
    if unsafe { TX.fail } {
        Err(solana_program::program_error::ProgramError::UnsupportedSysvar)
    } else {
        Ok(tx_instruction(relative))
    }
}
pub(crate) fn load_at_model(
    index: usize,
    _sysvar: &AccountInfo,
) -> Result<solana_program::instruction::Instruction, solana_program::program_error::ProgramError> {
    if unsafe { TX.fail } {
        Err(solana_program::program_error::ProgramError::UnsupportedSysvar)
    } else {
        Ok(tx_instruction(index as i64 - unsafe { TX.index } as i64))
    }
}
pub(crate) fn current_index_model(
    _sysvar: &AccountInfo,
) -> Result<u16, solana_program::program_error::ProgramError> {
    if unsafe { TX.fail } {
        Err(solana_program::program_error::ProgramError::UnsupportedSysvar)
    } else {
        Ok(unsafe { TX.index })
    }
}

// ---- sysvars -------------------------------------------------------------
/// Contract assumed of the sysvars: arbitrary, but the same throughout the
/// instruction.  The rent minimum of one arbitrary length is `min`.
pub(crate) struct SysGhost {
    magic: [u8; 16],
    pub slot: u64,
    pub epoch: u64,
    pub slots_per_epoch: u64,
    pub len: usize,
    pub min: u64,
    pub clock_fails: bool,
    pub schedule_fails: bool,
    pub rent_fails: bool,
}
pub(crate) static mut SYS: SysGhost = SysGhost {
    magic: *b"ghost of sysvars",
    slot: 0,
    epoch: 0,
    slots_per_epoch: 0,
    len: 0,
    min: 0,
    clock_fails: false,
    schedule_fails: false,
    rent_fails: false,
};
pub(crate) fn any_sysvars() {
    unsafe {
        SYS.slot = kani::any();
        SYS.epoch = kani::any();
        SYS.slots_per_epoch = kani::any();
        SYS.min = kani::any();
        SYS.clock_fails = kani::any();
        SYS.schedule_fails = kani::any();
        SYS.rent_fails = kani::any();
    }
}
use solana_program::{program_error::ProgramError, pubkey::Pubkey};
pub(crate) fn clock_model() -> Result<solana_program::clock::Clock, ProgramError> {
    unsafe {
        if SYS.clock_fails {
            return Err(ProgramError::UnsupportedSysvar);
        }
        Ok(solana_program::clock::Clock {
            slot: SYS.slot,
            epoch_start_timestamp: kani::any(),
            epoch: SYS.epoch,
            leader_schedule_epoch: kani::any(),
            unix_timestamp: kani::any(),
        })
    }
}
pub(crate) fn schedule_model() -> Result<solana_program::epoch_schedule::EpochSchedule, ProgramError> {
    unsafe {
        if SYS.schedule_fails {
            return Err(ProgramError::UnsupportedSysvar);
        }
        Ok(solana_program::epoch_schedule::EpochSchedule {
            slots_per_epoch: SYS.slots_per_epoch,
            leader_schedule_slot_offset: kani::any(),
            warmup: kani::any(),
            first_normal_epoch: kani::any(),
            first_normal_slot: kani::any(),
        })
    }
}
pub(crate) fn rent_model() -> Result<solana_program::rent::Rent, ProgramError> {
    unsafe {
        if SYS.rent_fails {
            return Err(ProgramError::UnsupportedSysvar);
        }
        Ok(solana_program::rent::Rent { lamports_per_byte_year: 1, exemption_threshold: 1.0, burn_percent: 0 })
    }
}
pub(crate) fn minimum_balance_model(_rent: &solana_program::rent::Rent, len: usize) -> u64 {
    if len == unsafe { SYS.len } {
        unsafe { SYS.min }
    } else {
        kani::any()
    }
}

// ---- program derived addresses ---------------------------------------------
/// Contract assumed of address derivation: a function of the program and of the
/// concatenated seeds.  `seeds` are arbitrary seeds of 41 bytes whose address
/// under this program is `key`, found with `bump`; any other derivation gives an
/// arbitrary address.
pub(crate) struct PdaGhost {
    magic: [u8; 16],
    pub seeds: [u8; 41],
    pub key: [u8; 32],
    pub bump: u8,
}
pub(crate) static mut PDA: PdaGhost = PdaGhost {
    magic: *b"ghost of the pda",
    seeds: [0; 41],
    key: [0; 32],
    bump: 0,
};
/// The concatenated `seeds` are those of the ghost, followed by `tail`
fn ghost_seeds(seeds: &[&[u8]], program: &Pubkey, tail: Option<u8>) -> bool {
    let mut ok = program.to_bytes() == crate::id().to_bytes();
    let mut at = 0usize;
    let mut i = 0;
    while i < seeds.len() {
        let s = seeds[i];
        let mut j = 0;
        while j < s.len() {
            let want = if at < 41 { Some(unsafe { PDA.seeds[at] }) } else if at == 41 { tail } else { None };
            ok &= want == Some(s[j]);
            at += 1;
            j += 1;
        }
        i += 1;
    }
    ok && at == if tail.is_some() { 42 } else { 41 }
}
pub(crate) fn find_model(seeds: &[&[u8]], program: &Pubkey) -> (Pubkey, u8) {
    if ghost_seeds(seeds, program, None) {
        unsafe { (Pubkey::new_from_array(PDA.key), PDA.bump) }
    } else {
        (Pubkey::new_from_array(kani::any()), kani::any())
    }
}
pub(crate) fn any_pda() {
    unsafe {
        PDA.seeds = kani::any();
        PDA.key = kani::any();
        PDA.bump = kani::any();
    }
}

// ---- accounts ----------------------------------------------------------------
#[repr(C)]
struct KeyMem {
    original_len: u32,
    key: Pubkey,
}
/// An account as the loader lays it out: the original length before the key, the
/// length before the data, and room for the data to grow after it.
pub(crate) fn account_of(key: [u8; 32], owner: [u8; 32], lamports: u64, len: usize) -> AccountInfo<'static> {
    kani::assume(len <= 10 * 1024 * 1024);
    let k: &'static KeyMem =
        Box::leak(Box::new(KeyMem { original_len: len as u32, key: Pubkey::new_from_array(key) }));
    let o: &'static mut Pubkey = Box::leak(Box::new(Pubkey::new_from_array(owner)));
    let l: &'static mut u64 = Box::leak(Box::new(lamports));
    let data = unsafe {
        let p = std::alloc::alloc(std::alloc::Layout::from_size_align_unchecked(8 + len + 10240, 8));
        kani::assume(!p.is_null());
        *(p as *mut u64) = len as u64;
        std::slice::from_raw_parts_mut(p.add(8), len)
    };
    AccountInfo::new(&k.key, kani::any(), kani::any(), l, data, o, false, 0)
}
pub(crate) fn any_account() -> AccountInfo<'static> {
    account_of(kani::any(), kani::any(), kani::any(), kani::any())
}

// ---- cross program invocation ----------------------------------------------------
/// Contract assumed of the runtime for the one invocation this program makes: the
/// system program's assign, signed for a program address.
pub(crate) struct CpiGhost {
    magic: [u8; 16],
    pub calls: usize,
    pub fails: bool,
}
pub(crate) static mut CPI: CpiGhost = CpiGhost { magic: *b"ghost of the cpi", calls: 0, fails: false };
pub(crate) fn assign_model(key: &Pubkey, owner: &Pubkey) -> solana_program::instruction::Instruction {
    let mut data = vec![1u8, 0, 0, 0];
    data.extend_from_slice(owner.as_ref());
    solana_program::instruction::Instruction {
        program_id: solana_program::system_program::id(),
        accounts: vec![solana_program::instruction::AccountMeta::new(*key, true)],
        data,
    }
}
/// Succeeds, if at all, only for an assign of the account at the program address
/// that the seeds derive, when it belongs to the system program.
pub(crate) fn invoke_model(
    ix: &solana_program::instruction::Instruction,
    infos: &[AccountInfo],
    signers: &[&[&[u8]]],
) -> solana_program::entrypoint::ProgramResult {
    unsafe {
        CPI.calls += 1;
        let system = solana_program::system_program::id();
        if ix.program_id != system || ix.data.len() != 36 || ix.accounts.len() != 1 {
            return Err(ProgramError::InvalidInstructionData);
        }
        let assign = ix.data[0] == 1 && ix.data[1] == 0 && ix.data[2] == 0 && ix.data[3] == 0;
        let signed = signers.len() == 1
            && ghost_seeds(signers[0], &crate::id(), Some(PDA.bump))
            && ix.accounts[0].pubkey.to_bytes() == PDA.key;
        if !assign || !signed || !ix.accounts[0].is_signer || !ix.accounts[0].is_writable || CPI.fails {
            return Err(ProgramError::MissingRequiredSignature);
        }
        let mut i = 0;
        while i < infos.len() {
            if *infos[i].key == ix.accounts[0].pubkey {
                let mut owner = [0u8; 32];
                owner.copy_from_slice(&ix.data[4..36]);
                if infos[i].owner.to_bytes() != owner {
                    if *infos[i].owner != system {
                        return Err(ProgramError::IllegalOwner);
                    }
                    infos[i].assign(&Pubkey::new_from_array(owner));
                }
                return Ok(());
            }
            i += 1;
        }
        Err(ProgramError::NotEnoughAccountKeys)
    }
}

/// Contract assumed of the system program's transfer instruction (wire format)
pub(crate) fn transfer_model(from: &Pubkey, to: &Pubkey, lamports: u64) -> solana_program::instruction::Instruction {
    let mut data = vec![2u8, 0, 0, 0];
    data.extend_from_slice(&lamports.to_le_bytes());
    solana_program::instruction::Instruction {
        program_id: solana_program::system_program::id(),
        accounts: vec![
            solana_program::instruction::AccountMeta::new(*from, true),
            solana_program::instruction::AccountMeta::new(*to, false),
        ],
        data,
    }
}
