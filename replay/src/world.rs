//! A concrete transaction against the real program: account memory laid out as
//! the loader lays it out, the real ed25519 precompile, a system program that
//! understands `Assign`, and the runtime's own account rules.

use {
    serde_json::{json, Value},
    solana_instruction::{BorrowedAccountMeta, BorrowedInstruction},
    solana_program::{
        account_info::AccountInfo,
        clock::Clock,
        entrypoint::{deserialize, ProgramResult, SUCCESS},
        epoch_schedule::EpochSchedule,
        instruction::{AccountMeta, Instruction},
        program_error::ProgramError,
        pubkey::Pubkey,
        rent::Rent,
    },
    std::{cell::RefCell, panic::AssertUnwindSafe, str::FromStr},
};

pub fn program_id() -> Pubkey {
    Pubkey::from_str("S1ashing11111111111111111111111111111111111").unwrap()
}
pub fn ed25519_id() -> Pubkey {
    Pubkey::from_str("Ed25519SigVerify111111111111111111111111111").unwrap()
}
pub fn system_id() -> Pubkey {
    Pubkey::from_str("11111111111111111111111111111111").unwrap()
}
pub fn instructions_sysvar_id() -> Pubkey {
    Pubkey::from_str("Sysvar1nstructions1111111111111111111111111").unwrap()
}

#[derive(Clone, Debug, PartialEq)]
pub struct Acc {
    pub key: Pubkey,
    pub owner: Pubkey,
    pub lamports: u64,
    pub data: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Case {
    pub note: String,
    pub slot: u64,
    pub epoch: u64,
    pub slots_per_epoch: u64,
    pub lamports_per_byte_year: u64,
    pub accounts: Vec<Acc>,
    pub tx: Vec<Instruction>,
    /// Top-level instruction being executed
    pub cur: usize,
    /// Set when the slashing program is reached by a cross-program invocation
    /// made by `tx[cur]`
    pub cpi: Option<Instruction>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Ok,
    Err(String),
    Panic(String),
    /// The transaction cannot reach the slashing program (precompile failure)
    NotRun(String),
    /// The program returned success but left accounts in a state the runtime
    /// refuses
    RuntimeReject(String),
}

#[derive(Clone, Debug)]
pub struct Outcome {
    pub res: Res,
    pub after: Vec<Acc>,
}

#[derive(Clone, Default)]
struct Env {
    slot: u64,
    epoch: u64,
    slots_per_epoch: u64,
    lamports_per_byte_year: u64,
}
thread_local! {
    static ENV: RefCell<Env> = RefCell::new(Env::default());
}

struct Stubs;
impl solana_program::program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, _m: &str) {}
    fn sol_get_clock_sysvar(&self, p: *mut u8) -> u64 {
        ENV.with(|e| {
            let e = e.borrow();
            unsafe {
                (p as *mut Clock).write(Clock { slot: e.slot, epoch: e.epoch, ..Clock::default() })
            }
        });
        SUCCESS
    }
    fn sol_get_epoch_schedule_sysvar(&self, p: *mut u8) -> u64 {
        ENV.with(|e| unsafe {
            (p as *mut EpochSchedule).write(EpochSchedule {
                slots_per_epoch: e.borrow().slots_per_epoch,
                ..EpochSchedule::without_warmup()
            })
        });
        SUCCESS
    }
    fn sol_get_rent_sysvar(&self, p: *mut u8) -> u64 {
        ENV.with(|e| unsafe {
            (p as *mut Rent).write(Rent {
                lamports_per_byte_year: e.borrow().lamports_per_byte_year,
                ..Rent::default()
            })
        });
        SUCCESS
    }
    fn sol_invoke_signed(
        &self,
        ix: &Instruction,
        infos: &[AccountInfo],
        seeds: &[&[&[u8]]],
    ) -> ProgramResult {
        if ix.program_id != system_id() || ix.data.len() != 36 || ix.data[..4] != [1, 0, 0, 0] {
            return Err(ProgramError::InvalidInstructionData);
        }
        let owner = Pubkey::try_from(&ix.data[4..36]).unwrap();
        if !infos.iter().any(|a| *a.key == system_id()) || ix.accounts.len() != 1 {
            return Err(ProgramError::NotEnoughAccountKeys);
        }
        let acc = infos
            .iter()
            .find(|a| *a.key == ix.accounts[0].pubkey)
            .ok_or(ProgramError::NotEnoughAccountKeys)?;
        if *acc.owner == owner {
            return Ok(());
        }
        let signed = seeds
            .iter()
            .any(|s| Pubkey::create_program_address(s, &program_id()) == Ok(*acc.key));
        if !signed {
            return Err(ProgramError::MissingRequiredSignature);
        }
        if *acc.owner != system_id()
            || !acc.is_writable
            || acc.try_borrow_data()?.iter().any(|b| *b != 0)
        {
            return Err(ProgramError::InvalidAccountOwner);
        }
        acc.assign(&owner);
        Ok(())
    }
}

/// Loader serialization (aligned), as in `solana_program::entrypoint`
fn serialize(accs: &[&Acc], writable: &[bool], dup: &[Option<usize>], ix: &[u8]) -> Vec<u64> {
    let mut b: Vec<u8> = vec![];
    b.extend((accs.len() as u64).to_le_bytes());
    for (i, a) in accs.iter().enumerate() {
        if let Some(d) = dup[i] {
            b.push(d as u8);
            b.extend([0; 7]);
            continue;
        }
        b.push(0xff);
        b.push(0); // signer
        b.push(writable[i] as u8);
        b.push(0); // executable
        b.extend([0; 4]);
        b.extend(a.key.to_bytes());
        b.extend(a.owner.to_bytes());
        b.extend(a.lamports.to_le_bytes());
        b.extend((a.data.len() as u64).to_le_bytes());
        b.extend(&a.data);
        b.extend(vec![0u8; 10240]);
        while b.len() % 8 != 0 {
            b.push(0)
        }
        b.extend(u64::MAX.to_le_bytes());
    }
    b.extend((ix.len() as u64).to_le_bytes());
    b.extend(ix);
    b.extend(program_id().to_bytes());
    let mut w = vec![0u64; b.len() / 8 + 2];
    unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), w.as_mut_ptr() as *mut u8, b.len()) };
    w
}

fn sysvar_data(tx: &[Instruction], cur: usize) -> Vec<u8> {
    let b: Vec<BorrowedInstruction> = tx
        .iter()
        .map(|ix| BorrowedInstruction {
            program_id: &ix.program_id,
            accounts: ix
                .accounts
                .iter()
                .map(|a| BorrowedAccountMeta {
                    pubkey: &a.pubkey,
                    is_signer: a.is_signer,
                    is_writable: a.is_writable,
                })
                .collect(),
            data: &ix.data,
        })
        .collect();
    let mut d = solana_instructions_sysvar::construct_instructions_data(&b);
    solana_instructions_sysvar::store_current_index_checked(&mut d, cur as u16).unwrap();
    d
}

impl Case {
    pub fn slash_ix(&self) -> &Instruction {
        self.cpi.as_ref().unwrap_or(&self.tx[self.cur])
    }
    pub fn acc(&self, k: &Pubkey) -> Acc {
        if *k == instructions_sysvar_id() {
            return Acc {
                key: *k,
                owner: Pubkey::from_str("Sysvar1111111111111111111111111111111111111").unwrap(),
                lamports: 0,
                data: sysvar_data(&self.tx, self.cur),
            };
        }
        self.accounts.iter().find(|a| a.key == *k).cloned().unwrap_or(Acc {
            key: *k,
            owner: system_id(),
            lamports: 0,
            data: vec![],
        })
    }

    #[allow(deprecated)]
    pub fn run(&self) -> Outcome {
        let same = |res| Outcome { res, after: vec![] };
        let datas: Vec<&[u8]> = self.tx.iter().map(|i| i.data.as_slice()).collect();
        for ix in &self.tx {
            if ix.program_id == ed25519_id() {
                let f = solana_feature_set::FeatureSet::all_enabled();
                // the runtime hands the precompile an aligned buffer
                let mut w = vec![0u64; ix.data.len() / 8 + 1];
                let d: &mut [u8] = bytemuck::cast_slice_mut(&mut w);
                d[..ix.data.len()].copy_from_slice(&ix.data);
                if let Err(e) = solana_ed25519_program::verify(&d[..ix.data.len()], &datas, &f) {
                    return same(Res::NotRun(format!("{e:?}")));
                }
            }
        }
        let ix = self.slash_ix();
        let metas: &[AccountMeta] = &ix.accounts;
        let before: Vec<Acc> = metas.iter().map(|m| self.acc(&m.pubkey)).collect();
        let dup: Vec<Option<usize>> = metas
            .iter()
            .enumerate()
            .map(|(i, m)| metas[..i].iter().position(|x| x.pubkey == m.pubkey))
            .collect();
        let writable: Vec<bool> = metas
            .iter()
            .map(|m| metas.iter().any(|x| x.pubkey == m.pubkey && x.is_writable))
            .collect();
        ENV.with(|e| {
            *e.borrow_mut() = Env {
                slot: self.slot,
                epoch: self.epoch,
                slots_per_epoch: self.slots_per_epoch,
                lamports_per_byte_year: self.lamports_per_byte_year,
            }
        });
        let refs: Vec<&Acc> = before.iter().collect();
        let mut buf = serialize(&refs, &writable, &dup, &ix.data);
        let (pid, infos, data) = unsafe { deserialize(buf.as_mut_ptr() as *mut u8) };
        let r = std::panic::catch_unwind(AssertUnwindSafe(|| {
            solana_slashing_program::processor::process_instruction(pid, &infos, data)
        }));
        let r = match r {
            Ok(r) => r,
            Err(p) => {
                let m = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or(p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                return same(Res::Panic(m));
            }
        };
        if let Err(e) = r {
            return same(Res::Err(format!("{e:?}")));
        }
        let after: Vec<Acc> = infos
            .iter()
            .map(|a| Acc {
                key: *a.key,
                owner: *a.owner,
                lamports: a.lamports(),
                data: a.data.borrow().to_vec(),
            })
            .collect();
        // the runtime's own rules
        let sum = |v: &[Acc]| -> u128 {
            v.iter().enumerate().filter(|(i, _)| dup[*i].is_none()).map(|(_, a)| a.lamports as u128).sum()
        };
        let mut res = Res::Ok;
        if sum(&before) != sum(&after) {
            res = Res::RuntimeReject("lamports not conserved".into());
        }
        for (i, (b, a)) in before.iter().zip(&after).enumerate() {
            let ours = b.owner == program_id() || a.owner == program_id();
            if b != a && !writable[i] {
                res = Res::RuntimeReject(format!("read-only account {i} changed"));
            } else if !ours && (b.data != a.data || b.owner != a.owner || b.lamports > a.lamports) {
                res = Res::RuntimeReject(format!("foreign account {i} changed"));
            } else if a.owner != b.owner && b.owner == program_id() && a.data.iter().any(|x| *x != 0) {
                res = Res::RuntimeReject(format!("account {i} reassigned with data"));
            }
        }
        drop(infos);
        Outcome { res, after }
    }
}

pub fn init() {
    solana_program::program_stubs::set_syscall_stubs(Box::new(Stubs));
    std::panic::set_hook(Box::new(|_| {}));
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn ix_json(i: &Instruction) -> Value {
    json!({"program": i.program_id.to_string(), "data": hex(&i.data),
        "accounts": i.accounts.iter().map(|a| json!([a.pubkey.to_string(), a.is_writable])).collect::<Vec<_>>()})
}
fn ix_from(v: &Value) -> Instruction {
    Instruction {
        program_id: Pubkey::from_str(v["program"].as_str().unwrap()).unwrap(),
        data: unhex(v["data"].as_str().unwrap()),
        accounts: v["accounts"]
            .as_array()
            .unwrap()
            .iter()
            .map(|a| AccountMeta {
                pubkey: Pubkey::from_str(a[0].as_str().unwrap()).unwrap(),
                is_signer: false,
                is_writable: a[1].as_bool().unwrap(),
            })
            .collect(),
    }
}
impl Case {
    pub fn to_json(&self) -> Value {
        json!({"note": self.note, "slot": self.slot, "epoch": self.epoch, "slots_per_epoch": self.slots_per_epoch,
            "lamports_per_byte_year": self.lamports_per_byte_year,
            "accounts": self.accounts.iter().map(|a| json!({"key": a.key.to_string(), "owner": a.owner.to_string(),
                "lamports": a.lamports, "data": hex(&a.data)})).collect::<Vec<_>>(),
            "tx": self.tx.iter().map(ix_json).collect::<Vec<_>>(), "cur": self.cur,
            "cpi": self.cpi.as_ref().map(ix_json)})
    }
    pub fn from_json(v: &Value) -> Case {
        let u = |k: &str| v[k].as_u64().unwrap();
        Case {
            note: v["note"].as_str().unwrap_or("").into(),
            slot: u("slot"),
            epoch: u("epoch"),
            slots_per_epoch: u("slots_per_epoch"),
            lamports_per_byte_year: u("lamports_per_byte_year"),
            accounts: v["accounts"]
                .as_array()
                .unwrap()
                .iter()
                .map(|a| Acc {
                    key: Pubkey::from_str(a["key"].as_str().unwrap()).unwrap(),
                    owner: Pubkey::from_str(a["owner"].as_str().unwrap()).unwrap(),
                    lamports: a["lamports"].as_u64().unwrap(),
                    data: unhex(a["data"].as_str().unwrap()),
                })
                .collect(),
            tx: v["tx"].as_array().unwrap().iter().map(ix_from).collect(),
            cur: u("cur") as usize,
            cpi: if v["cpi"].is_null() { None } else { Some(ix_from(&v["cpi"])) },
        }
    }
}
