//! One stake-changing instruction from an arbitrary consistent state, against an independent statement of
//! its effect on every date from today on.
use crate::{stubs, vp::*, world::*};
use solana_program::pubkey::Pubkey;

pub struct Scn {
    pub t: Time,
    pub at: u64,
    pub pool: Info,
    pub mining: Info,
    pub del: Option<Info>,
    pub da: Info,
    pub owner: Pubkey,
    pub downer: Pubkey,
    pub p0: PoolS,
    pub m0: MinS,
    pub d0: Option<MinS>,
    pub hist: Hist,
}
#[derive(Clone, Copy)]
pub struct Cfg {
    pub nc: u32,
    pub np: u32,
    pub nm: u32,
    pub nd: u32,
    pub del: bool,
    pub perm: bool,
    pub live: bool,
    /// 1: one key is the participant, the deposit, fill and distribute authority; 2: the delegate is the deposit authority
    pub alias: u32,
}
pub const VB: u32 = 100;
/// in live mode: at most 2^66 / PRECISION reward units per unit of weighted stake over the whole history
pub const LIVE_VB: u32 = 66;

pub fn fill_mining(a: &Info, n: u32, c: &Cfg, hist: &Hist) {
    let w = wm(a);
    let vb = if c.live { 42 } else { 64 };
    w.mining.share = bits("share", vb);
    w.mining.stake_from_others = bits("sfo", vb);
    w.mining.unclaimed_rewards = bits("unclaimed", vb);
    if c.nc > 0 {
        w.mining.index_with_precision = u128v("mining_index", if c.live { LIVE_VB } else { VB });
    }
    let d = mining_diffs(a, "diff", n, c.perm);
    if c.live {
        let mut s = 0u128;
        for v in &d.vals {
            s += *v as u128;
        }
        assume(s <= w.mining.share as u128);
        // the participant has been brought up to date before its first scheduled date
        if c.nc > 0 {
            for x in &d.days {
                assume(w.mining.index_with_precision <= hist_before(hist, x * DAY));
            }
            assume(w.mining.index_with_precision <= hist[c.nc as usize - 1].1);
        }
    }
}
pub fn rest(m: &MinS) -> (u128, u128) {
    let mut s = 0u128;
    for (_, v) in &m.wd {
        s += *v as u128;
    }
    (m.share as u128 + m.sfo as u128, s)
}

pub fn scn(c: &Cfg) -> Scn {
    stubs::install(&pid());
    let t = time("day", "sec");
    let at = bits("at", 38);
    assume(at >= t.bod);
    let (pk, dak) = (k(1), k(4));
    let (owner, downer) = (if c.alias & 1 == 1 { dak } else { k(2) }, if c.alias & 2 == 2 { dak } else { k(3) });
    let (distribute, fill) = if c.alias & 1 == 1 { (dak, dak) } else { (k(5), k(6)) };
    let pool = new_pool(pk, &dak, &distribute, &fill, &k(7), 255);
    {
        let w = wp(&pool);
        let vb = if c.live { 46 } else { 64 };
        w.pool.total_share = bits("total", vb);
        w.pool.distribution_ends_at = bits("ends", 38);
        w.pool.tokens_available_for_distribution = u64v("avail");
    }
    let hist = history(&pool, c.nc, t.d, if c.live { LIVE_VB } else { VB }, false);
    pool_diffs(&pool, "pdiff", c.np, c.perm);
    let (mk, mb) = mining_pda(&owner, &pk);
    let mining = new_mining(mk, &pk, &owner, mb);
    fill_mining(&mining, c.nm, c, &hist);
    let del = if c.del {
        let (dk, db) = mining_pda(&downer, &pk);
        let d = new_mining(dk, &pk, &downer, db);
        fill_mining(&d, c.nd, &Cfg { perm: false, ..*c }, &hist);
        Some(d)
    } else {
        None
    };
    let da = wallet(dak, true);
    let (p0, m0) = (psnap(&pool), msnap(&mining));
    let d0 = del.as_ref().map(msnap);
    if c.live {
        // the pool accounts for at least these two participants
        let mut s = 0u128;
        for (_, v) in &p0.wd {
            s += *v as u128;
        }
        let (a, b) = rest(&m0);
        let (x, y) = d0.as_ref().map(rest).unwrap_or((0, 0));
        assume(p0.total as u128 + b + y >= s + a + x);
    }
    Scn { t, at, pool, mining, del, da, owner, downer, p0, m0, d0, hist }
}
impl Scn {
    /// the participant's own signature; one account where that is the deposit authority as well
    pub fn owner_info(&self) -> Info {
        if self.owner == *self.da.key {
            self.da.clone()
        } else {
            wallet(self.owner, true)
        }
    }
    pub fn delegate_info(&self) -> Info {
        match &self.del {
            Some(d) => d.clone(),
            None => self.mining.clone(),
        }
    }
    pub fn delegate_owner(&self) -> Pubkey {
        if self.del.is_some() {
            self.downer
        } else {
            self.owner
        }
    }
}
/// nothing scheduled for the past is left after the participant was brought up to date
pub fn settled(m: &MinS, bod: u64) -> bool {
    let mut ok = true;
    for (d, v) in &m.wd {
        ok = and(ok, or(*d > bod, *v == 0));
    }
    ok
}
pub fn midnight(wd: &[(u64, u64)]) -> bool {
    let mut ok = true;
    for (d, _) in wd {
        ok = and(ok, *d % DAY == 0);
    }
    ok
}

/// params from o: nc np nm nd delegate(+2: one key in all roles, +4: the delegate is the deposit authority) perm live
pub fn cfg(o: u32) -> Cfg {
    Cfg {
        nc: param(o) as u32,
        np: param(o + 1) as u32,
        nm: param(o + 2) as u32,
        nd: param(o + 3) as u32,
        del: param(o + 4) & 1 == 1,
        alias: param(o + 4) as u32 >> 1,
        perm: param(o + 5) == 1,
        live: param(o + 6) == 1,
    }
}

/// What one operation must have done: stake changes of the participant (at the arbitrary date s.at) and of
/// the delegates, the same change of the pool, rewards accrued on what each of them held before.
#[macro_export]
macro_rules! post {
    ($op:literal, $s:expr, $up:expr, $down:expr, $dels:expr) => {{
        let s = &$s;
        let (p1, m1) = (psnap(&s.pool), msnap(&s.mining));
        let at = s.at;
        let (up, down): (u128, u128) = ($up, $down);
        check(delta(m1.own(at), s.m0.own(at), up, down), concat!($op, ".own"));
        check(m1.sfo == s.m0.sfo, concat!($op, ".sfo"));
        check(settled(&m1, s.t.bod), concat!($op, ".settled"));
        check(and(midnight(&m1.wd), midnight(&p1.wd)), concat!($op, ".midnight"));
        check(same_ident(&m1, &s.m0), concat!($op, ".ident"));
        let e = accrue(&s.m0, &s.hist, s.t.bod);
        check(and(m1.unclaimed as u128 == e.0, m1.index == e.1), concat!($op, ".accrual"));
        let (mut pup, mut pdown) = (up, down);
        let (w1, w0) = (m1.w(at), s.m0.w(at));
        let (mut l, mut r) = (w1.1 + w0.0, w1.0 + w0.1);
        let dels: Vec<(&Info, &MinS, u128, u128)> = $dels;
        for (d, d0, plus, minus) in dels {
            let d1 = msnap(d);
            check(delta(d1.own(at), d0.own(at), 0, 0), concat!($op, ".delegate_own"));
            check(d1.sfo as u128 + minus == d0.sfo as u128 + plus, concat!($op, ".delegate_sfo"));
            check(settled(&d1, s.t.bod), concat!($op, ".delegate_settled"));
            check(same_ident(&d1, d0), concat!($op, ".delegate_ident"));
            let e = accrue(d0, &s.hist, s.t.bod);
            check(and(d1.unclaimed as u128 == e.0, d1.index == e.1), concat!($op, ".delegate_accrual"));
            pup += plus;
            pdown += minus;
            let (w1, w0) = (d1.w(at), d0.w(at));
            l += w1.1 + w0.0;
            r += w1.0 + w0.1;
        }
        let (w1, w0) = (p1.w(at), s.p0.w(at));
        check(delta(w1, w0, pup, pdown), concat!($op, ".pool"));
        check(w1.0 + w0.1 + l == w0.0 + w1.1 + r, concat!($op, ".conserve"));
        check(same_roles(&p1, &s.p0), concat!($op, ".roles"));
        check(same_dist(&p1, &s.p0, at), concat!($op, ".dist"));
        check(stubs::cpis().is_empty(), concat!($op, ".cpi"));
    }};
}
fn dels(s: &Scn, plus: u128, minus: u128) -> Vec<(&Info, &MinS, u128, u128)> {
    match (&s.del, &s.d0) {
        (Some(d), Some(d0)) => vec![(d, d0, plus, minus)],
        _ => vec![],
    }
}
pub fn scheduled(wd: &[(u64, u64)], after: u64) -> u128 {
    let mut s = 0u128;
    for (d, v) in wd {
        s += ite(*d > after, *v, 0) as u128;
    }
    s
}
/// what is left of the participant's own stake once everything scheduled up to today has expired
pub fn own_now(m: &MinS, bod: u64) -> (u128, u128) {
    (m.share as u128, sum_le(&m.wd, bod))
}

#[no_mangle]
pub extern "C" fn h_deposit() {
    let c = cfg(0);
    let s = scn(&c);
    let a = bits("amount", if c.live { 42 } else { 64 });
    let period = pick(7, 6) as u8;
    let bad = period == 0 || period == 5;
    if c.live {
        must(!bad);
    }
    let r = run(vec![s.pool.clone(), s.mining.clone(), s.da.clone(), s.delegate_info()], &i_deposit(a, period, &s.owner, &s.delegate_owner()));
    if bad {
        reach("bad");
        check(r.is_err(), "deposit.period");
        return;
    }
    if c.live {
        check(r.is_ok(), "deposit.live");
    }
    if r.is_err() {
        reach("err");
        return;
    }
    reach("ok");
    let m = MULT[period as usize] as u128;
    let exp = s.t.bod + PDAYS[period as usize] * DAY;
    let up = a as u128 * m;
    let down = ite(s.at >= exp, a, 0) as u128 * (m - 1);
    post!("deposit", s, up, down, dels(&s, a as u128, 0));
}

#[no_mangle]
pub extern "C" fn h_withdraw() {
    let c = cfg(0);
    let s = scn(&c);
    let a = bits("amount", if c.live { 42 } else { 64 });
    if c.live {
        let (x, y) = s.m0.own(u64::MAX);
        assume(a as u128 + y <= x);
        if let Some(d0) = &s.d0 {
            assume(a <= d0.sfo);
        }
        must(true);
    }
    let r = run(vec![s.pool.clone(), s.mining.clone(), s.da.clone(), s.delegate_info()], &i_withdraw(a, &s.owner, &s.delegate_owner()));
    if c.live {
        check(r.is_ok(), "withdraw.live");
    }
    if r.is_err() {
        reach("err");
        return;
    }
    reach("ok");
    let (have, gone) = own_now(&s.m0, s.t.bod);
    check(a as u128 + gone <= have, "withdraw.limit");
    if let Some(d0) = &s.d0 {
        check(a <= d0.sfo, "withdraw.delegate_limit");
    }
    post!("withdraw", s, 0, a as u128, dels(&s, 0, a as u128));
}

#[no_mangle]
pub extern "C" fn h_extend() {
    let c = cfg(0);
    let s = scn(&c);
    let (o, n) = (pick(7, 6) as u8, pick(8, 6) as u8);
    let start = bits("start", 38);
    let base = bits("base", if c.live { 40 } else { 64 });
    let add = bits("add", if c.live { 40 } else { 64 });
    let (ob, nb) = (o == 0 || o == 5, n == 0 || n == 5);
    let bad = ob || nb;
    let obod = start / DAY * DAY;
    let old_exp = if ob || o == 1 { 0 } else { obod + PDAYS[o as usize] * DAY };
    if c.live && !bad {
        let (x, y) = own_now(&s.m0, s.t.bod);
        if s.t.ts < old_exp {
            // the stake being extended is among the scheduled ones
            let q = base as u128 * (MULT[o as usize] - 1) as u128;
            assume(at(&s.m0.wd, old_exp) >= q);
            assume(at(&s.p0.wd, old_exp) >= q);
            let mut there = false;
            for (d, _) in &s.m0.wd {
                there = or(there, *d == old_exp);
            }
            assume(there);
            let mut there = false;
            for (d, _) in &s.p0.wd {
                there = or(there, *d == old_exp);
            }
            assume(there);
            assume(base as u128 * MULT[o as usize] as u128 + y <= x);
        } else {
            assume(base as u128 + y <= x);
        }
        if let Some(d0) = &s.d0 {
            assume(base <= d0.sfo);
        }
        let (x, y) = (s.p0.total as u128, 0u128);
        assume(base as u128 * 8 + y <= x);
        must(true);
    }
    let r = run(vec![s.pool.clone(), s.mining.clone(), s.da.clone(), s.delegate_info()], &i_extend(o, n, start, base, add, &s.owner, &s.delegate_owner()));
    if bad {
        reach("bad");
        check(r.is_err(), "extend.period");
        return;
    }
    if c.live {
        check(r.is_ok(), "extend.live");
    }
    if r.is_err() {
        reach("err");
        return;
    }
    let (mut up, mut down) = (0u128, 0u128);
    let at = s.at;
    if s.t.ts < old_exp {
        reach("ok-running");
        let mo = MULT[o as usize] as u128;
        down += base as u128 * mo;
        up += ite(at >= old_exp, base, 0) as u128 * (mo - 1);
    } else {
        reach("ok-expired");
        down += base as u128;
    }
    reach("ok");
    let mn = MULT[n as usize] as u128;
    let exp = s.t.bod + PDAYS[n as usize] * DAY;
    let all = base as u128 + add as u128;
    up += all * mn;
    down += ite128(at >= exp, all, 0) * (mn - 1);
    post!("extend", s, up, down, dels(&s, add as u128, 0));
}

#[no_mangle]
pub extern "C" fn h_change() {
    let c = cfg(0);
    let s = scn(&c);
    let a = bits("amount", if c.live { 42 } else { 64 });
    // old and new delegate: 0 the participant itself, 1 first delegate, 2 second delegate
    let kind = pick(7, 5);
    let (old, new) = [(0, 1), (1, 0), (1, 2), (1, 1), (0, 0)][kind as usize];
    let o2 = k(9);
    let (dk, db) = mining_pda(&o2, &s.p0.key);
    let second = new_mining(dk, &s.p0.key, &o2, db);
    if new == 2 {
        fill_mining(&second, c.nd, &Cfg { perm: false, ..c }, &s.hist);
    }
    let s0 = msnap(&second);
    let pickd = |i: i32| match i {
        0 => (s.mining.clone(), s.owner),
        1 => (s.del.as_ref().unwrap().clone(), s.downer),
        _ => (second.clone(), o2),
    };
    let d0 = s.d0.as_ref().unwrap();
    if c.live && kind < 3 {
        if old == 1 {
            assume(a <= d0.sfo);
        }
        assume(a <= s.p0.total);
        must(true);
    }
    let owner = s.owner_info();
    let r = run(vec![s.pool.clone(), s.mining.clone(), s.da.clone(), owner, pickd(old).0, pickd(new).0], &i_change(a, &pickd(new).1));
    if kind >= 3 {
        reach("same");
        check(r.is_err(), "change.same");
        return;
    }
    if c.live {
        check(r.is_ok(), "change.live");
    }
    if r.is_err() {
        reach("err");
        return;
    }
    reach("ok");
    let a = a as u128;
    let d = s.del.as_ref().unwrap();
    let l = match kind {
        0 => vec![(d, d0, a, 0)],
        1 => vec![(d, d0, 0, a)],
        _ => vec![(d, d0, 0, a), (&second, &s0, a, 0)],
    };
    if old == 1 {
        check(a <= d0.sfo as u128, "change.limit");
    }
    post!("change", s, 0, 0, l);
}

#[no_mangle]
pub extern "C" fn h_slash() {
    let c = cfg(0);
    let s = scn(&c);
    let native = bits("native", if c.live { 42 } else { 64 });
    let weighted = bits("weighted", if c.live { 42 } else { 64 });
    let exp = if pick(7, 2) == 1 { Some(bits("exp", 38)) } else { None };
    if c.live {
        assume(native <= weighted);
        let d = weighted - native;
        match exp {
            Some(e) => {
                let eb = e / DAY * DAY;
                assume(eb > s.t.bod);
                let (x, y) = s.m0.own(s.t.bod);
                assume(weighted as u128 + y <= x);
                let (mut a, mut b) = (false, false);
                for (k, v) in &s.m0.wd {
                    a = or(a, and(*k == eb, *v >= d));
                }
                for (k, v) in &s.p0.wd {
                    b = or(b, and(*k == eb, *v >= d));
                }
                assume(and(a, b));
            }
            None => {
                let (x, y) = s.m0.own(u64::MAX);
                assume(weighted as u128 + y <= x);
            }
        }
        let mut sum = 0u128;
        for (_, v) in &s.p0.wd {
            sum += *v as u128;
        }
        assume(weighted as u128 + sum <= s.p0.total as u128);
        must(true);
    }
    let r = run(vec![s.da.clone(), s.pool.clone(), s.mining.clone()], &i_slash(&s.owner, native, weighted, exp));
    if c.live {
        check(r.is_ok(), "slash.live");
    }
    if r.is_err() {
        reach("err");
        return;
    }
    reach("ok");
    let (x, y) = own_now(&s.m0, s.t.bod);
    check(weighted as u128 + y <= x, "slash.limit");
    let up = match exp {
        Some(e) => {
            reach("ok-scheduled");
            check(native <= weighted, "slash.amounts");
            ite(s.at >= e / DAY * DAY, weighted.wrapping_sub(native), 0)
        }
        None => 0,
    };
    post!("slash", s, up as u128, weighted as u128, vec![]);
}

#[no_mangle]
pub extern "C" fn h_decrease() {
    let c = cfg(0);
    let s = scn(&c);
    let n = bits("n", if c.live { 42 } else { 64 });
    let (have, gone) = own_now(&s.m0, s.t.bod);
    if c.live {
        assume(n as u128 + gone <= have);
        must(true);
    }
    let r = run(vec![s.da.clone(), s.pool.clone(), s.mining.clone()], &i_decrease(&s.owner, n));
    if c.live {
        check(r.is_ok(), "decrease.live");
    }
    if r.is_err() {
        reach("err");
        return;
    }
    reach("ok");
    let at = s.at;
    let (p1, m1) = (psnap(&s.pool), msnap(&s.mining));
    check(n as u128 + gone <= have, "decrease.limit");
    // today's stake falls by n ...
    let (h1, g1) = own_now(&m1, s.t.bod);
    check(h1 + gone + n as u128 == have + g1, "decrease.own");
    // ... and the reductions scheduled later than any date are cut by n, but not below zero
    let (s0, s1) = (scheduled(&s.m0.wd, at), scheduled(&m1.wd, at));
    check(s1 == ite128(s0 >= n as u128, s0.wrapping_sub(n as u128), 0), "decrease.schedule");
    // so the stake never exceeds what it was at any later date
    let ((x1, y1), (x0, y0)) = (m1.own(at), s.m0.own(at));
    check(x1 + y0 <= x0 + y1, "decrease.never_more");
    check(m1.sfo == s.m0.sfo, "decrease.sfo");
    check(and(midnight(&m1.wd), midnight(&p1.wd)), "decrease.midnight");
    check(same_ident(&m1, &s.m0), "decrease.ident");
    let e = accrue(&s.m0, &s.hist, s.t.bod);
    check(and(m1.unclaimed as u128 == e.0, m1.index == e.1), "decrease.accrual");
    check(delta(p1.w(at), s.p0.w(at), 0, 0), "decrease.pool");
    check(same_roles(&p1, &s.p0), "decrease.roles");
    check(same_dist(&p1, &s.p0, at), "decrease.dist");
    check(stubs::cpis().is_empty(), "decrease.cpi");
}
