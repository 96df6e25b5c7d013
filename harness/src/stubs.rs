//! Model of the Solana runtime around the program: clock, rent, cross-program calls into the token and
//! system programs. Everything inside the rewards program itself is the real code.
use crate::vp;
use solana_program::{
    account_info::AccountInfo, clock::Clock, entrypoint::ProgramResult, instruction::Instruction,
    program_error::ProgramError, program_stubs::{set_syscall_stubs, SyscallStubs}, pubkey::Pubkey, rent::Rent, system_program,
};

#[derive(Clone, PartialEq, Eq, Copy, Debug)]
pub enum CpiKind {
    Transfer,
    InitAccount,
    CreateAccount,
    Lamports,
    Other,
}
pub struct Cpi {
    pub kind: CpiKind,
    pub a: Pubkey,
    pub b: Pubkey,
    pub auth: Pubkey,
    pub amount: u64,
    pub space: u64,
    pub owner: Pubkey,
}

pub static mut TS: u64 = 0;
pub static mut CPIS: Vec<Cpi> = vec![];
/// last instruction sent to the rewards program itself (by its client)
pub static mut LAST: Option<Instruction> = None;
pub static mut RET: Option<Vec<u8>> = None;
pub static mut PROGRAM: [u8; 32] = [0; 32];
/// when set, rent parameters are what Rent::default() gives
pub fn set_time(ts: u64) {
    unsafe { TS = ts }
}
pub fn now() -> u64 {
    unsafe { TS }
}
pub fn cpis() -> &'static Vec<Cpi> {
    unsafe { &*std::ptr::addr_of!(CPIS) }
}
pub fn clear() {
    unsafe {
        CPIS = vec![];
        LAST = None;
        RET = None;
    }
}
pub fn last() -> Option<Instruction> {
    unsafe { (*std::ptr::addr_of!(LAST)).clone() }
}
pub fn ret() -> Option<Vec<u8>> {
    unsafe { (*std::ptr::addr_of!(RET)).clone() }
}

struct S;
fn pos(infos: &[AccountInfo], k: &Pubkey) -> Option<usize> {
    for (i, x) in infos.iter().enumerate() {
        if vp::keq(x.key, k) {
            return Some(i);
        }
    }
    None
}
pub fn rd64(b: &[u8], o: usize) -> u64 {
    let mut x = [0u8; 8];
    x.copy_from_slice(&b[o..o + 8]);
    u64::from_le_bytes(x)
}
pub fn rdkey(b: &[u8], o: usize) -> Pubkey {
    let mut x = [0u8; 32];
    x.copy_from_slice(&b[o..o + 32]);
    Pubkey::new_from_array(x)
}
impl SyscallStubs for S {
    fn sol_log(&self, _m: &str) {}
    fn sol_log_data(&self, _f: &[&[u8]]) {}
    fn sol_get_clock_sysvar(&self, p: *mut u8) -> u64 {
        unsafe {
            let c = Clock { slot: 1, epoch_start_timestamp: 0, epoch: 0, leader_schedule_epoch: 0, unix_timestamp: TS as i64 };
            *(p as *mut Clock) = c;
        }
        0
    }
    fn sol_get_rent_sysvar(&self, p: *mut u8) -> u64 {
        // the mainnet parameters, with the rent threshold pre-multiplied so that no float arithmetic is involved
        unsafe { *(p as *mut Rent) = Rent { lamports_per_byte_year: 3480, exemption_threshold: 2.0, burn_percent: 50 } };
        0
    }
    fn sol_set_return_data(&self, d: &[u8]) {
        unsafe { RET = Some(d.to_vec()) }
    }
    fn sol_invoke_signed(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
        let program = unsafe { Pubkey::new_from_array(PROGRAM) };
        if vp::keq(&ix.program_id, &program) {
            unsafe { LAST = Some(ix.clone()) };
            return Ok(());
        }
        // privileges: a signer in the inner instruction must have signed the outer one or be a PDA of the caller
        let mut pdas: Vec<Pubkey> = vec![];
        for s in seeds {
            pdas.push(Pubkey::create_program_address(s, &program).map_err(|_| ProgramError::InvalidSeeds)?);
        }
        for m in &ix.accounts {
            let i = pos(infos, &m.pubkey).ok_or(ProgramError::NotEnoughAccountKeys)?;
            if m.is_signer {
                let mut ok = infos[i].is_signer;
                for p in &pdas {
                    ok = vp::or(ok, vp::keq(p, &m.pubkey));
                }
                if !ok {
                    return Err(ProgramError::MissingRequiredSignature);
                }
            }
            if m.is_writable && !infos[i].is_writable {
                return Err(ProgramError::InvalidArgument);
            }
        }
        let d = &ix.data;
        if ix.program_id == spl_token::id() {
            if d.len() == 9 && d[0] == 3 {
                let amount = rd64(d, 1);
                let (s, t, a) = (ix.accounts[0].pubkey, ix.accounts[1].pubkey, ix.accounts[2].pubkey);
                let (si, ti) = (pos(infos, &s).unwrap(), pos(infos, &t).unwrap());
                {
                    // spl-token: both accounts owned by the token program, same mint, authority = owner of the source, balance
                    if !vp::keq(infos[si].owner, &spl_token::id()) || !vp::keq(infos[ti].owner, &spl_token::id()) {
                        return Err(ProgramError::IncorrectProgramId);
                    }
                    // a transfer to the same account succeeds without moving anything
                    if vp::keq(&s, &t) {
                        let sd = infos[si].data.borrow();
                        if sd[108] != 1 {
                            return Err(ProgramError::UninitializedAccount);
                        }
                        if !vp::beq(&sd[32..64], a.as_ref()) {
                            return Err(ProgramError::Custom(4)); // OwnerMismatch
                        }
                        if !ix.accounts[2].is_signer {
                            return Err(ProgramError::MissingRequiredSignature);
                        }
                        if rd64(&sd, 64) < amount {
                            return Err(ProgramError::Custom(1)); // InsufficientFunds
                        }
                        push(Cpi { kind: CpiKind::Transfer, a: s, b: t, auth: a, amount, space: 0, owner: Pubkey::default() });
                        return Ok(());
                    }
                    let mut sd = infos[si].data.borrow_mut();
                    let mut td = infos[ti].data.borrow_mut();
                    if sd[108] != 1 || td[108] != 1 {
                        return Err(ProgramError::UninitializedAccount);
                    }
                    if !vp::beq(&sd[0..32], &td[0..32]) {
                        return Err(ProgramError::Custom(3)); // MintMismatch
                    }
                    // the owner, or a delegate within its allowance
                    let by_delegate = sd[72] == 1 && vp::beq(&sd[76..108], a.as_ref());
                    if by_delegate {
                        let left = rd64(&sd, 121).checked_sub(amount).ok_or(ProgramError::Custom(1))?;
                        sd[121..129].copy_from_slice(&left.to_le_bytes());
                        if left == 0 {
                            sd[72] = 0;
                        }
                    } else if !vp::beq(&sd[32..64], a.as_ref()) {
                        return Err(ProgramError::Custom(4)); // OwnerMismatch
                    }
                    if !ix.accounts[2].is_signer {
                        return Err(ProgramError::MissingRequiredSignature);
                    }
                    let (x, y) = (rd64(&sd, 64), rd64(&td, 64));
                    let nx = x.checked_sub(amount).ok_or(ProgramError::Custom(1))?; // InsufficientFunds
                    let ny = y.checked_add(amount).ok_or(ProgramError::Custom(14))?; // Overflow
                    sd[64..72].copy_from_slice(&nx.to_le_bytes());
                    td[64..72].copy_from_slice(&ny.to_le_bytes());
                }
                push(Cpi { kind: CpiKind::Transfer, a: s, b: t, auth: a, amount, space: 0, owner: Pubkey::default() });
                return Ok(());
            }
            if d.len() == 1 && d[0] == 1 {
                let (acc, mint, own) = (ix.accounts[0].pubkey, ix.accounts[1].pubkey, ix.accounts[2].pubkey);
                let i = pos(infos, &acc).unwrap();
                let mut sd = infos[i].data.borrow_mut();
                if sd.len() != 165 {
                    return Err(ProgramError::InvalidAccountData);
                }
                if sd[108] != 0 {
                    return Err(ProgramError::Custom(6)); // AlreadyInUse
                }
                sd[0..32].copy_from_slice(mint.as_ref());
                sd[32..64].copy_from_slice(own.as_ref());
                sd[108] = 1;
                push(Cpi { kind: CpiKind::InitAccount, a: acc, b: mint, auth: own, amount: 0, space: 0, owner: Pubkey::default() });
                return Ok(());
            }
        }
        if ix.program_id == system_program::id() && d.len() == 52 && d[0..4] == [0, 0, 0, 0] {
            let (from, to) = (ix.accounts[0].pubkey, ix.accounts[1].pubkey);
            let (lamports, space, owner) = (rd64(d, 4), rd64(d, 12), rdkey(d, 20));
            let (fi, ti) = (pos(infos, &from).unwrap(), pos(infos, &to).unwrap());
            if !ix.accounts[0].is_signer || !ix.accounts[1].is_signer {
                return Err(ProgramError::MissingRequiredSignature);
            }
            if infos[ti].lamports() != 0 || infos[ti].data_len() != 0 || !vp::keq(infos[ti].owner, &system_program::id()) {
                return Err(ProgramError::Custom(0)); // AccountAlreadyInUse
            }
            let f = infos[fi].lamports().checked_sub(lamports).ok_or(ProgramError::Custom(1))?;
            **infos[fi].lamports.borrow_mut() = f;
            **infos[ti].lamports.borrow_mut() = lamports;
            alloc(&infos[ti], space);
            infos[ti].assign(&owner);
            push(Cpi { kind: CpiKind::CreateAccount, a: from, b: to, auth: from, amount: lamports, space, owner });
            return Ok(());
        }
        if ix.program_id == system_program::id() && d.len() == 12 && d[0..4] == [2, 0, 0, 0] {
            let (fi, ti) = (pos(infos, &ix.accounts[0].pubkey).unwrap(), pos(infos, &ix.accounts[1].pubkey).unwrap());
            if !ix.accounts[0].is_signer {
                return Err(ProgramError::MissingRequiredSignature);
            }
            if infos[fi].data_len() != 0 || !vp::keq(infos[fi].owner, &system_program::id()) {
                return Err(ProgramError::InvalidArgument);
            }
            let amount = rd64(d, 4);
            let f = infos[fi].lamports().checked_sub(amount).ok_or(ProgramError::Custom(1))?;
            **infos[fi].lamports.borrow_mut() = f;
            let t = infos[ti].lamports().checked_add(amount).ok_or(ProgramError::ArithmeticOverflow)?;
            **infos[ti].lamports.borrow_mut() = t;
            push(Cpi { kind: CpiKind::Lamports, a: *infos[fi].key, b: *infos[ti].key, auth: *infos[fi].key, amount, space: 0, owner: Pubkey::default() });
            return Ok(());
        }
        let (allocate, assign) = (d.len() == 12 && d[0..4] == [8, 0, 0, 0], d.len() == 36 && d[0..4] == [1, 0, 0, 0]);
        if ix.program_id == system_program::id() && (allocate || assign) {
            let i = pos(infos, &ix.accounts[0].pubkey).unwrap();
            if !ix.accounts[0].is_signer {
                return Err(ProgramError::MissingRequiredSignature);
            }
            if !vp::keq(infos[i].owner, &system_program::id()) || (allocate && infos[i].data_len() != 0) {
                return Err(ProgramError::Custom(0)); // AccountAlreadyInUse
            }
            let (mut space, mut owner) = (0, system_program::id());
            if allocate {
                space = rd64(d, 4);
                alloc(&infos[i], space);
            } else {
                owner = rdkey(d, 4);
                infos[i].assign(&owner);
            }
            push(Cpi { kind: CpiKind::CreateAccount, a: *infos[i].key, b: *infos[i].key, auth: *infos[i].key, amount: 0, space, owner });
            return Ok(());
        }
        push(Cpi { kind: CpiKind::Other, a: ix.program_id, b: ix.program_id, auth: ix.program_id, amount: 0, space: 0, owner: ix.program_id });
        Ok(())
    }
}
fn alloc(a: &AccountInfo, space: u64) {
    let nd: &'static mut [u8] = crate::world::buffer(space as usize);
    unsafe {
        let p: *mut &mut [u8] = &mut *a.data.borrow_mut() as *mut &mut [u8];
        *p = std::mem::transmute::<&'static mut [u8], &mut [u8]>(nd);
    }
}
fn push(c: Cpi) {
    unsafe { (*std::ptr::addr_of_mut!(CPIS)).push(c) }
}
pub fn install(program: &Pubkey) {
    unsafe { PROGRAM = program.to_bytes() };
    clear();
    for a in [*program, spl_token::id(), system_program::id(), solana_program::sysvar::rent::id()] {
        vp::fixed(&a);
    }
    let _ = set_syscall_stubs(Box::new(S));
}
