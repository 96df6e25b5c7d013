//! The entry point the chain calls, on the serialized input it is given, against processing the same accounts
//! and data directly.
use crate::{auth::plain, stubs, vp::*, world::*};
use solana_program::{pubkey::Pubkey, system_program};

extern "C" {
    fn entrypoint(input: *mut u8) -> u64;
}
const GROW: usize = 10_240;

/// where account i lies in the serialized input (a later occurrence lies where the first one does)
struct Ser {
    buf: &'static mut [u8],
    at: Vec<usize>,
}
fn same_account(a: &Info, b: &Info) -> bool {
    std::ptr::eq(a.key, b.key) && std::rc::Rc::ptr_eq(&a.data, &b.data)
}
fn pad8(n: usize) -> usize {
    (n + 7) / 8 * 8
}
fn serialize(accs: &[Info], data: &[u8], program: &Pubkey) -> Ser {
    let mut size = 8;
    for (i, a) in accs.iter().enumerate() {
        size += if accs[..i].iter().any(|b| same_account(a, b)) { 8 } else { 88 + pad8(a.data_len() + GROW) + 8 };
    }
    size += 8 + data.len() + 32;
    let buf = buffer(size);
    let mut at = vec![];
    buf[0..8].copy_from_slice(&(accs.len() as u64).to_le_bytes());
    let mut o = 8;
    for (i, a) in accs.iter().enumerate() {
        if let Some(j) = accs[..i].iter().position(|b| same_account(a, b)) {
            buf[o] = j as u8;
            at.push(at[j]);
            o += 8;
            continue;
        }
        at.push(o);
        buf[o] = 255;
        buf[o + 1] = a.is_signer as u8;
        buf[o + 2] = a.is_writable as u8;
        buf[o + 8..o + 40].copy_from_slice(a.key.as_ref());
        buf[o + 40..o + 72].copy_from_slice(a.owner.as_ref());
        buf[o + 72..o + 80].copy_from_slice(&a.lamports().to_le_bytes());
        let d = a.data.borrow();
        buf[o + 80..o + 88].copy_from_slice(&(d.len() as u64).to_le_bytes());
        buf[o + 88..o + 88 + d.len()].copy_from_slice(&d);
        o += 88 + pad8(d.len() + GROW) + 8;
    }
    buf[o..o + 8].copy_from_slice(&(data.len() as u64).to_le_bytes());
    buf[o + 8..o + 8 + data.len()].copy_from_slice(data);
    o += 8 + data.len();
    buf[o..o + 32].copy_from_slice(program.as_ref());
    Ser { buf, at }
}
fn creating(tag: u64) -> (Vec<Info>, Vec<u8>) {
    stubs::set_time(19_000 * DAY + 7);
    let (pk, u, da, mint) = (k(1), k(2), k(4), k(7));
    let payer = acct_l(k(10), system_program::id(), 0, true, true, 1 << 40);
    if tag == 0 {
        let vault = acct_l(vault_pda(&pk, &mint).0, system_program::id(), 0, false, true, bits("sent", 39));
        let rent = acct(solana_program::sysvar::rent::id(), k(252), 17, false, false);
        let pool = acct(pk, pid(), pool_len(), false, true);
        (vec![pool, mint_account(mint), vault, payer, wallet(da, true), rent, token_program(), system()], i_init_pool(&key("fill"), &key("distribute")))
    } else {
        let pool = new_pool(pk, &da, &k(5), &k(6), &mint, 255);
        let mining = acct_l(mining_pda(&u, &pk).0, system_program::id(), 0, false, true, bits("sent", 39));
        (vec![pool, mining, payer, system()], i_init_mining(&u))
    }
}

/// params: instruction
#[no_mangle]
pub extern "C" fn h_entry() {
    let tag = param(0);
    stubs::install(&pid());
    let (mut accs, mut data) = if tag == 0 || tag == 2 {
        creating(tag)
    } else {
        let (a, d, pool, _) = plain(tag);
        wp(&pool).pool.tokens_available_for_distribution = bits("avail", 40);
        wp(&pool).pool.distribution_ends_at = bits("ends", 38);
        (a, d)
    };
    let mut program = pid();
    // as given, or with something that has to be refused
    match choose(6) {
        0 => {}
        1 => {
            accs.pop();
        }
        2 => {
            let i = choose(accs.len() as u32) as usize;
            for x in accs.iter_mut() {
                x.is_signer = false;
            }
            accs[i].is_signer = true;
        }
        3 => {
            let n = data.len();
            data.truncate(n - 1);
        }
        4 => {
            data[0] = u8v("tag");
            assume(data[0] > 11);
        }
        _ => program = k(99),
    }
    let ser = serialize(&accs, &data, &program);
    must(true);
    stubs::clear();
    let all: &'static [Info] = Box::leak(accs.clone().into_boxed_slice());
    let direct = mplx_rewards::instructions::process_instruction(&program, all, &data);
    let (calls, ret) = (stubs::cpis().len(), stubs::ret());
    stubs::clear();
    let code = unsafe { entrypoint(ser.buf.as_mut_ptr()) };
    match direct {
        Ok(()) => {
            reach("ok");
            check(code == 0, "entry.accepted");
            check(stubs::cpis().len() == calls, "entry.calls");
            let r = stubs::ret();
            check(match (&ret, &r) { (None, None) => true, (Some(a), Some(b)) => a.len() == b.len() && beq(a, b), _ => false }, "entry.return");
            for (a, o) in accs.iter().zip(&ser.at) {
                check(a.lamports() == stubs::rd64(ser.buf, o + 72), "entry.lamports");
                check(beq(a.owner.as_ref(), &ser.buf[o + 40..o + 72]), "entry.owner");
                let d = a.data.borrow();
                // an account created on the way lies elsewhere
                if d.len() as u64 == stubs::rd64(ser.buf, o + 80) {
                    check(beq(&d, &ser.buf[o + 88..o + 88 + d.len()]), "entry.state");
                }
            }
        }
        Err(e) => {
            reach("refused");
            check(code == u64::from(e) && code != 0, "entry.refused");
        }
    }
}
