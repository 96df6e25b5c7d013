//! Histories of several instructions, starting from empty accounts.
use crate::{stubs, vp::*, world::*};
use sokoban::NodeAllocatorMap;
use solana_program::system_program;

/// a moment at most 511 days after the previous one
struct Clock(u64);
impl Clock {
    fn later(&mut self, least: u64) -> u64 {
        let (gap, sec) = (bits("gap", 9), bits("sec", 17));
        assume(sec < DAY);
        assume(gap >= least);
        self.0 += gap;
        self.set(sec);
        self.0 * DAY
    }
    fn at(&mut self, day: u64, sec: u64) {
        self.0 = day;
        self.set(sec);
    }
    fn set(&self, sec: u64) {
        stubs::set_time(self.0 * DAY + sec);
    }
}
const START: u64 = 19_000;

/// Any short history leaves pool and participants with the same books.
/// params: up to four operations (stored plus one, 0 = all), period of deposits
#[no_mangle]
pub extern "C" fn h_books() {
    stubs::install(&pid());
    let n = param(0);
    let (pk, dak, a, b) = (k(1), k(4), k(2), k(3));
    let pool = new_pool(pk, &dak, &k(5), &k(6), &k(7), 255);
    let ((ak, ab), (bk, bb)) = (mining_pda(&a, &pk), mining_pda(&b, &pk));
    let (ma, mb) = (new_mining(ak, &pk, &a, ab), new_mining(bk, &pk, &b, bb));
    let da = || wallet(dak, true);
    let mut c = Clock(START);
    wp(&pool).pool.distribution_ends_at = (START + 4000) * DAY;
    // stake of each delegated to the other, and whether a penalty made the pool count too much
    let (mut to_b, mut to_a, mut fined) = (0u128, 0u128, false);
    // A's last deposit: period, start, end
    let mut last: Option<(u8, u64, u64)> = None;
    for i in 0..n {
        let bod = c.later(0);
        let op = pick(1 + i as u32, 11);
        let amount = bits("amount", 40);
        let period = if op == 0 || op == 1 || op == 8 || op == 10 { pick(6, 4) as u8 + 1 } else { 1 };
        let end = bod + PDAYS[period as usize] * DAY;
        let start = stubs::now();
        let r = match op {
            0 => run(vec![pool.clone(), ma.clone(), da(), ma.clone()], &i_deposit(amount, period, &a, &a)),
            1 => run(vec![pool.clone(), ma.clone(), da(), mb.clone()], &i_deposit(amount, period, &a, &b)),
            2 => run(vec![pool.clone(), ma.clone(), da(), ma.clone()], &i_withdraw(amount, &a, &a)),
            3 => run(vec![pool.clone(), ma.clone(), da(), mb.clone()], &i_withdraw(amount, &a, &b)),
            4 => run(vec![pool.clone(), ma.clone(), da(), wallet(a, true), ma.clone(), mb.clone()], &i_change(amount, &b)),
            5 => run(vec![pool.clone(), ma.clone(), da(), wallet(a, true), mb.clone(), ma.clone()], &i_change(amount, &a)),
            6 => {
                let weighted = bits("weighted", 43);
                let exp = last.map(|l| l.2);
                run(vec![da(), pool.clone(), ma.clone()], &i_slash(&a, amount, weighted, exp))
            }
            7 => run(vec![da(), pool.clone(), ma.clone()], &i_decrease(&a, amount)),
            8 => {
                let l = match last {
                    Some(l) => l,
                    None => return,
                };
                let more = bits("more", 40);
                run(vec![pool.clone(), ma.clone(), da(), ma.clone()], &i_extend(l.0, period, l.1, amount, more, &a, &a))
            }
            9 => run(vec![pool.clone(), wallet(k(5), true)], &i_distribute()),
            _ => run(vec![pool.clone(), mb.clone(), da(), ma.clone()], &i_deposit(amount, period, &b, &a)),
        };
        if r.is_err() {
            return reach("err");
        }
        match op {
            0 | 1 | 8 => last = Some((period, start, end)),
            _ => {}
        }
        match op {
            1 | 4 => to_b += amount as u128,
            3 | 5 => to_b = to_b.wrapping_sub(amount as u128),
            7 => fined = true,
            10 => to_a += amount as u128,
            _ => {}
        }
    }
    reach("ok");
    let at = bits("at", 38);
    assume(at >= c.0 * DAY);
    let (p, x, y) = (psnap(&pool), msnap(&ma), msnap(&mb));
    check(x.sfo as u128 == to_a, "books.delegated");
    check(y.sfo as u128 == to_b, "books.delegated");
    let (pw, xw, yw) = (p.w(at), x.w(at), y.w(at));
    let (l, r) = (pw.0 + xw.1 + yw.1, xw.0 + yw.0 + pw.1);
    if fined {
        check(l >= r, "books.enough");
    } else {
        check(l == r, "books.equal");
    }
    check(all(&[x.unclaimed == 0, y.unclaimed == 0]), "books.no_rewards");
}

/// Whoever deposited can leave once the lockup has ended, and nothing of his remains.
/// params: period, two events in between, second period, distribution at the end
#[no_mangle]
pub extern "C" fn h_leave() {
    stubs::install(&pid());
    let (pk, dak, a, b, mint) = (k(1), k(4), k(2), k(3), k(7));
    let (vk, vb) = vault_pda(&pk, &mint);
    let pool = new_pool(pk, &dak, &k(5), &k(6), &mint, vb);
    let ((ak, ab), (bk, bb)) = (mining_pda(&a, &pk), mining_pda(&b, &pk));
    let (ma, mb) = (new_mining(ak, &pk, &a, ab), new_mining(bk, &pk, &b, bb));
    let vault = token_account(vk, &mint, &dak, 1 << 62);
    let da = || wallet(dak, true);
    // the others: stake that stays, and stake that expires on the same days
    let other = bits("other", 42);
    let later = bits("later", 40);
    assume(later <= other);
    wm(&mb).mining.share = other;
    let amount = bits("amount", 42);
    let mut period = pick(0, 4) as u8 + 1;
    let events = [pick(1, 7), pick(2, 7)];
    let late = pick(4, 2) == 1;
    let mut c = Clock(START);
    let d0 = c.later(0);
    let mut end = d0 + PDAYS[period as usize] * DAY;
    {
        let w = wp(&pool);
        w.pool.total_share = other;
        w.pool.tokens_available_for_distribution = bits("avail", 50);
        w.pool.distribution_ends_at = bits("ends", 38);
        w.weighted_stake_diffs.insert(end, later);
        wm(&mb).weighted_stake_diffs.insert(end, later);
        if events[0] == 1 || events[1] == 1 || late {
            // rewards in proportion to the stake
            assume(other > later);
            assume(w.pool.tokens_available_for_distribution <= (other - later) * 4000);
        }
    }
    let delegated = choose(2) == 1;
    let mut del = if delegated { mb.clone() } else { ma.clone() };
    let r = run(vec![pool.clone(), ma.clone(), da(), del.clone()], &i_deposit(amount, period, &a, if delegated { &b } else { &a }));
    check(r.is_ok(), "leave.deposit");
    let mut start = stubs::now();
    // what is left of the deposit, and what stays with the delegate though it was slashed
    let (mut rest, mut stuck) = (amount, 0);
    // a second deposit
    let (mut more, mut end2) = (0, 0);
    let distribute = |pool: &Info| run(vec![pool.clone(), wallet(k(5), true)], &i_distribute());
    let dest = token_account(k(8), &mint, &a, 0);
    let claim = || run(vec![pool.clone(), mint_account(mint), vault.clone(), ma.clone(), wallet(a, true), da(), dest.clone(), token_program()], &i_claim());
    for ev in events {
        let d = if ev == 0 { 0 } else { c.later(0) };
        let away = *del.key != ak;
        match ev {
            0 => {}
            1 => check(distribute(&pool).is_ok(), "leave.distribute"),
            2 => check(claim().is_ok(), "leave.claim"),
            3 => {
                let (new, owner) = if away { (ma.clone(), a) } else { (mb.clone(), b) };
                let r = run(vec![pool.clone(), ma.clone(), da(), wallet(a, true), del.clone(), new.clone()], &i_change(rest + more, &owner));
                check(r.is_ok(), "leave.change");
                del = new;
            }
            4 => {
                let new = pick(3, 4) as u8 + 1;
                let owner = if away { &b } else { &a };
                let r = run(vec![pool.clone(), ma.clone(), da(), del.clone()], &i_extend(period, new, start, rest, 0, &a, owner));
                check(r.is_ok(), "leave.extend");
                (period, start) = (new, stubs::now());
                end = d + PDAYS[period as usize] * DAY;
            }
            6 => {
                let (add, new) = (bits("add", 41), pick(3, 4) as u8 + 1);
                let owner = if away { &b } else { &a };
                let r = run(vec![pool.clone(), ma.clone(), da(), del.clone()], &i_deposit(add, new, &a, owner));
                check(r.is_ok(), "leave.again");
                more += add;
                let e = d + PDAYS[new as usize] * DAY;
                end2 = ite(end2 < e, e, end2);
            }
            _ => {
                // part of it is slashed while it is locked
                assume(stubs::now() < end);
                let part = bits("part", 42);
                assume(part <= rest);
                let r = run(vec![da(), pool.clone(), ma.clone()], &i_slash(&a, part, part * MULT[period as usize], Some(end)));
                check(r.is_ok(), "leave.slash");
                rest -= part;
                if away {
                    stuck += part;
                }
            }
        }
    }
    let (extra, sec) = (bits("extra", 9), bits("sec", 17));
    assume(sec < DAY);
    let day = ite(end < end2, end2, end) / DAY + extra;
    assume(day >= c.0);
    c.at(day, sec);
    if late {
        check(distribute(&pool).is_ok(), "leave.distribute");
    }
    let owner = if *del.key != ak { &b } else { &a };
    let r = run(vec![pool.clone(), ma.clone(), da(), del.clone()], &i_withdraw(rest + more, &a, owner));
    check(r.is_ok(), "leave.withdraw");
    c.later(0);
    check(claim().is_ok(), "leave.claim");
    c.later(0);
    let target = acct_l(k(9), system_program::id(), 0, false, true, 7);
    **ma.lamports.borrow_mut() = 1000;
    let m = msnap(&ma);
    check(m.share == 0, "leave.nothing_left");
    let r = run(vec![ma.clone(), wallet(a, true), target.clone(), da(), pool.clone()], &i_close());
    check(r.is_ok(), "leave.close");
    if r.is_err() {
        return;
    }
    reach("ok");
    check(target.lamports() == 1007 && ma.lamports() == 0, "leave.lamports");
    // the pool is left with the stake and schedule of the others
    let (p, y) = (psnap(&pool), msnap(&mb));
    let at = bits("at", 38);
    assume(at >= c.0 * DAY);
    let (pw, yw) = (p.w(at), y.w(at));
    check(pw.0 + yw.1 == yw.0 + pw.1, "leave.others");
    check(y.sfo == stuck, "leave.delegated");
}
