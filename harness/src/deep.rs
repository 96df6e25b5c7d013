//! Long and full schedules and histories: dates are concrete, every amount is symbolic.
use crate::{ops::*, post, stubs, vp::*, world::*};
use solana_program::pubkey::Pubkey;
use sokoban::NodeAllocatorMap;

pub const D0: u64 = 19_000;

/// a fixed permutation of 0..n, so that the trees are not built in key order only
fn shuffled(n: usize) -> Vec<usize> {
    let mut step = 7;
    while n > 0 && gcd(step, n) != 1 {
        step += 2;
    }
    (0..n).map(|i| (i * step + 3) % n.max(1)).collect()
}
fn gcd(a: usize, b: usize) -> usize {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}
/// every listed date was accepted by the tree
pub fn scn_deep(pool_days: &[u64], min_days: &[u64], hist_days: &[u64], live: bool) -> Scn {
    scn_deep_del(pool_days, min_days, hist_days, live, None)
}
fn deep_mining(a: &Info, days: &[u64], live: bool) {
    let w = wm(a);
    w.mining.share = bits("share", if live { 46 } else { 64 });
    w.mining.stake_from_others = bits("sfo", 42);
    w.mining.unclaimed_rewards = bits("unclaimed", 42);
    for i in shuffled(days.len()) {
        w.weighted_stake_diffs.insert(days[i] * DAY, bits("diff", 40));
    }
    if live {
        // what is scheduled is part of the stake
        let m = msnap(a);
        let mut s = 0u128;
        for (_, v) in &m.wd {
            s += *v as u128;
        }
        assume(s <= m.share as u128);
    }
}
/// with a separate delegate that has a schedule of its own
pub fn scn_deep_del(pool_days: &[u64], min_days: &[u64], hist_days: &[u64], live: bool, del_days: Option<&[u64]>) -> Scn {
    stubs::install(&pid());
    let sec = bits("sec", 17);
    assume(sec < DAY);
    let t = Time { d: D0, s: sec, ts: D0 * DAY + sec, bod: D0 * DAY };
    stubs::set_time(t.ts);
    let at = bits("at", 38);
    assume(at >= t.bod);
    let (pk, owner, downer, dak) = (k(1), k(2), k(3), k(4));
    let pool = new_pool(pk, &dak, &k(5), &k(6), &k(7), 255);
    let mut hist: Hist = vec![];
    {
        let w = wp(&pool);
        w.pool.distribution_ends_at = (D0 + 10) * DAY;
        w.pool.tokens_available_for_distribution = bits("avail", 40);
        w.pool.total_share = bits("total", if live { 60 } else { 64 });
        for d in hist_days {
            let v = u128v("ci_val", 66);
            if let Some(l) = hist.last() {
                assume(l.1 <= v);
            }
            hist.push((d * DAY, v));
        }
        for i in shuffled(hist.len()) {
            w.cumulative_index.insert(hist[i].0, hist[i].1);
        }
        if let Some(l) = hist.last() {
            w.pool.index_with_precision = l.1;
        }
        for i in shuffled(pool_days.len()) {
            w.weighted_stake_diffs.insert(pool_days[i] * DAY, bits("pdiff", 50));
        }
    }
    let (mk, mb) = mining_pda(&owner, &pk);
    let mining = new_mining(mk, &pk, &owner, mb);
    deep_mining(&mining, min_days, live);
    let del = del_days.map(|d| {
        let (dk, db) = mining_pda(&downer, &pk);
        let a = new_mining(dk, &pk, &downer, db);
        deep_mining(&a, d, live);
        a
    });
    let d0 = del.as_ref().map(msnap);
    let da = wallet(dak, true);
    let (p0, m0) = (psnap(&pool), msnap(&mining));
    if live {
        // what is scheduled is part of the stake
        let mut s = 0u128;
        for (_, v) in &p0.wd {
            s += *v as u128;
        }
        assume(s < p0.total as u128);
    }
    Scn { t, at, pool, mining, del, da, owner, downer, p0, m0, d0, hist }
}
/// n days ending the day before `from`
fn before(from: u64, n: u64) -> Vec<u64> {
    (0..n).map(|i| from - n + i).collect()
}
/// n days starting at `from`, without `skip`
fn after(from: u64, n: u64, skip: u64) -> Vec<u64> {
    let mut v = vec![];
    let mut d = from;
    while (v.len() as u64) < n {
        if d != skip {
            v.push(d);
        }
        d += 1;
    }
    v
}
fn full(a: &[u64], b: &[u64]) -> Vec<u64> {
    let mut v = a.to_vec();
    v.extend_from_slice(b);
    v
}
const POOL_CAP: u64 = 365;
const MIN_CAP: u64 = 50;
const HIST_CAP: u64 = 1095;

/// An entry that does not fit is refused; nothing is ever silently dropped. Entries that are there already,
/// or whose place is freed by the operation itself, always fit.
/// params: case
#[no_mangle]
pub extern "C" fn h_capacity() {
    let case = param(0);
    let period = 2u64;
    let e = D0 + 90;
    let none: Vec<u64> = vec![];
    // (pool schedule, participant schedule, must it fit, may it be refused)
    let (pd, md, fits) = match case {
        // the pool's schedule is full, today's expiry date is not in it / is in it
        0 => (after(D0 + 1, POOL_CAP, e), none, false),
        1 => (after(D0 + 1, POOL_CAP, 0), none, true),
        // the participant's schedule is full
        2 => (vec![D0 + 3], after(D0 + 60, MIN_CAP, e), false),
        3 => (vec![e], after(D0 + 60, MIN_CAP, 0), true),
        // it is full of dates that have passed: bringing it up to date makes room
        4 => (vec![D0 + 3], full(&before(D0 + 1, 10), &after(D0 + 60, MIN_CAP - 10, e)), true),
        // one place left in each
        5 => (after(D0 + 1, POOL_CAP - 1, e), after(D0 + 60, MIN_CAP - 1, e), true),
        // both full
        _ => (after(D0 + 1, POOL_CAP, e), after(D0 + 60, MIN_CAP, e), false),
    };
    let s = scn_deep(&pd, &md, &[], true);
    let a = bits("amount", 42);
    let extend = param(1) == 1;
    if fits {
        must(true);
    }
    let acc = vec![s.pool.clone(), s.mining.clone(), s.da.clone(), s.mining.clone()];
    let base = bits("base", 40);
    assume(base as u128 + own_now(&s.m0, s.t.bod).1 <= own_now(&s.m0, s.t.bod).0);
    assume(base as u128 <= s.p0.total as u128);
    let r = if extend {
        run(acc, &i_extend(1, period as u8, 0, base, a, &s.owner, &s.owner))
    } else {
        run(acc, &i_deposit(a, period as u8, &s.owner, &s.owner))
    };
    if fits {
        check(r.is_ok(), "capacity.fits");
    }
    if r.is_err() {
        reach("refused");
        return;
    }
    reach("ok");
    let n = if extend { a as u128 + base as u128 } else { a as u128 };
    let down = if extend { base as u128 } else { 0 };
    post!("capacity", s, n * MULT[2] as u128, ite128(s.at >= e * DAY, n, 0) + down, vec![]);
}

/// params: days in the history, whether today's distribution is already in it
#[no_mangle]
pub extern "C" fn h_capacity_history() {
    let n = param(0);
    let today = param(1) == 1;
    let h = before(if today { D0 + 1 } else { D0 }, n);
    let s = scn_deep(&[D0 - 1, D0 + 5], &[], &h, true);
    let fits = n < HIST_CAP || today;
    if fits {
        must(true);
    }
    let r = run(vec![s.pool.clone(), wallet(s.p0.distribute, true)], &i_distribute());
    if fits {
        check(r.is_ok(), "capacity.fits");
    }
    if r.is_err() {
        reach("refused");
        return;
    }
    reach("ok");
    let p1 = psnap(&s.pool);
    if today {
        check(same_dist(&p1, &s.p0, s.at), "capacity.history");
        return;
    }
    let mut kept = true;
    check(p1.ci.len() as u64 == n + 1, "capacity.history");
    for (i, (d, v)) in s.p0.ci.iter().enumerate() {
        kept = and(kept, and(p1.ci[i].0 == *d, p1.ci[i].1 == *v));
    }
    let (d, v) = p1.ci[n as usize];
    check(and(kept, and(d == s.t.bod, v == p1.index)), "capacity.history");
    check(p1.avail <= s.p0.avail, "capacity.history_avail");
}

/// A long schedule, many of its dates reached, with several distributions in between: stake falls at each date
/// exactly once and rewards follow it. params: op, reached dates, later dates, distributions, gap
#[no_mangle]
pub extern "C" fn h_deep() {
    let (op, past, later, nh, gap) = (param(0), param(1), param(2), param(3), param(4).max(1));
    let mut pd: Vec<u64> = before(D0 + 1, past);
    pd.extend(after(D0 + 1, later, 0));
    let md = pd.clone();
    let h: Vec<u64> = (0..nh).map(|i| D0 - (nh - 1 - i) * gap).collect();
    let s = if op >= 7 { scn_deep_del(&pd, &[D0 + 2], &h, true, Some(&md)) } else { scn_deep(&pd, &md, &h, true) };
    if nh > 0 {
        for m in s.del.iter().chain([&s.mining]) {
            let ix = u128v("mining_index", 66);
            assume(ix <= s.hist[0].1);
            // up to date before the first scheduled date
            assume(past == 0 || ix <= hist_before(&s.hist, pd[0] * DAY));
            wm(m).mining.index_with_precision = ix;
        }
    }
    let s = Scn { m0: msnap(&s.mining), d0: s.del.as_ref().map(msnap), ..s };
    let a = bits("amount", 42);
    let (have, gone) = own_now(&s.m0, s.t.bod);
    let owner: Pubkey = s.owner;
    must(true);
    match op {
        0 => {
            let r = run(vec![s.pool.clone(), s.mining.clone(), s.da.clone(), s.mining.clone()], &i_deposit(a, 3, &owner, &owner));
            check(r.is_ok(), "deep.live");
            let n = a as u128;
            post!("deep", s, n * 4, ite128(s.at >= s.t.bod + 180 * DAY, n * 3, 0), vec![]);
        }
        1 => {
            assume(a as u128 + gone + sum_le(&s.m0.wd, u64::MAX) <= have);
            assume(a as u128 + sum_le(&s.p0.wd, u64::MAX) <= s.p0.total as u128);
            let r = run(vec![s.pool.clone(), s.mining.clone(), s.da.clone(), s.mining.clone()], &i_withdraw(a, &owner, &owner));
            check(r.is_ok(), "deep.live");
            post!("deep", s, 0, a as u128, vec![]);
        }
        2 => {
            // slash up to what is scheduled for the last date
            let (e, v) = *s.m0.wd.last().unwrap();
            let w = bits("weighted", 42);
            assume(a <= w);
            assume(w as u128 + gone <= have);
            assume(w - a <= v);
            assume((w - a) as u128 <= crate::world::at(&s.p0.wd, e));
            assume(w as u128 + sum_le(&s.p0.wd, u64::MAX) <= s.p0.total as u128);
            let r = run(vec![s.da.clone(), s.pool.clone(), s.mining.clone()], &i_slash(&owner, a, w, Some(e)));
            check(r.is_ok(), "deep.live");
            post!("deep", s, ite128(s.at >= e, (w - a) as u128, 0), w as u128, vec![]);
        }
        3 => {
            let vk = vault_pda(&s.p0.key, &k(7));
            wp(&s.pool).pool.token_account_bump = vk.1;
            let s = Scn { p0: psnap(&s.pool), ..s };
            let vault = token_account(vk.0, &k(7), &s.p0.deposit, bits("vault_balance", 62));
            let dest = token_account(k(8), &k(7), &s.owner, bits("dest_balance", 62));
            let (v0, d0) = (amount_of(&vault), amount_of(&dest));
            let e = accrue(&s.m0, &s.hist, s.t.bod);
            assume(e.0 <= v0 as u128);
            let r = run(vec![s.pool.clone(), mint_account(k(7)), vault.clone(), s.mining.clone(), wallet(s.owner, true), s.da.clone(), dest.clone(), token_program()], &i_claim());
            check(r.is_ok(), "deep.live");
            let m1 = msnap(&s.mining);
            check(amount_of(&dest) as u128 == d0 as u128 + e.0, "deep.paid");
            check(and(m1.unclaimed == 0, m1.index == e.1), "deep.accrual");
            check(settled(&m1, s.t.bod), "deep.settled");
            check(delta(m1.own(s.at), s.m0.own(s.at), 0, 0), "deep.own");
        }
        4 => {
            let auth = wallet(s.p0.distribute, true);
            let r = run(vec![s.pool.clone(), auth], &i_distribute());
            check(r.is_ok(), "deep.live");
            let p1 = psnap(&s.pool);
            check(delta(p1.w(s.at), s.p0.w(s.at), 0, 0), "deep.stake");
            check(p1.total as u128 + sum_le(&s.p0.wd, s.t.bod) == s.p0.total as u128, "deep.total");
        }
        6 => {
            // a stake that is still locked and expires at the last date of the schedule: six months, then a year
            let (e, v) = *s.m0.wd.last().unwrap();
            let base = bits("base", 38);
            let v0 = crate::world::at(&s.p0.wd, e);
            assume(e > s.t.ts);
            assume(base as u128 * 3 <= v as u128);
            assume(base as u128 * 3 <= v0);
            assume(base as u128 + sum_le(&s.m0.wd, u64::MAX) <= s.m0.share as u128);
            assume(base as u128 + sum_le(&s.p0.wd, u64::MAX) < s.p0.total as u128);
            let r = run(vec![s.pool.clone(), s.mining.clone(), s.da.clone(), s.mining.clone()], &i_extend(3, 4, e - 180 * DAY, base, a, &owner, &owner));
            check(r.is_ok(), "deep.live");
            let (b, n) = (base as u128, a as u128 + base as u128);
            post!("deep", s, n * 6 + ite128(s.at >= e, b * 3, 0), b * 4 + ite128(s.at >= s.t.bod + 365 * DAY, n * 5, 0), vec![]);
        }
        7 => {
            // moving delegated stake to somebody with a long schedule
            let d = s.del.as_ref().unwrap();
            let r = run(vec![s.pool.clone(), s.mining.clone(), s.da.clone(), wallet(owner, true), s.mining.clone(), d.clone()], &i_change(a, &s.downer));
            check(r.is_ok(), "deep.live");
            post!("deep", s, 0, 0, vec![(d, s.d0.as_ref().unwrap(), a as u128, 0)]);
        }
        8 => {
            let d = s.del.as_ref().unwrap();
            let r = run(vec![s.pool.clone(), s.mining.clone(), s.da.clone(), d.clone()], &i_deposit(a, 3, &owner, &s.downer));
            check(r.is_ok(), "deep.live");
            let n = a as u128;
            post!("deep", s, n * 4, ite128(s.at >= s.t.bod + 180 * DAY, n * 3, 0), vec![(d, s.d0.as_ref().unwrap(), n, 0)]);
        }
        9 => {
            let d = s.del.as_ref().unwrap();
            let d0 = s.d0.as_ref().unwrap();
            assume(a as u128 + gone + sum_le(&s.m0.wd, u64::MAX) <= have);
            assume(2 * a as u128 + sum_le(&s.p0.wd, u64::MAX) <= s.p0.total as u128);
            assume(a <= d0.sfo);
            let r = run(vec![s.pool.clone(), s.mining.clone(), s.da.clone(), d.clone()], &i_withdraw(a, &owner, &s.downer));
            check(r.is_ok(), "deep.live");
            post!("deep", s, 0, a as u128, vec![(d, d0, 0, a as u128)]);
        }
        _ => {
            assume(a as u128 + gone <= have);
            let r = run(vec![s.da.clone(), s.pool.clone(), s.mining.clone()], &i_decrease(&owner, a));
            check(r.is_ok(), "deep.live");
            let m1 = msnap(&s.mining);
            let (h1, g1) = own_now(&m1, s.t.bod);
            check(h1 + gone + a as u128 == have + g1, "deep.own");
            let (s0, s1) = (scheduled(&s.m0.wd, s.at), scheduled(&m1.wd, s.at));
            check(s1 == ite128(s0 >= a as u128, s0.wrapping_sub(a as u128), 0), "deep.schedule");
            let e = accrue(&s.m0, &s.hist, s.t.bod);
            check(and(m1.unclaimed as u128 == e.0, m1.index == e.1), "deep.accrual");
        }
    }
    reach("ok");
}
