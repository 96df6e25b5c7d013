//! Accounts, symbolic account contents and the arithmetic the properties are stated in.
use crate::{stubs, vp::*};
use mplx_rewards::state::{Mining, RewardPool, WrappedMining, WrappedRewardPool};
use sokoban::NodeAllocatorMap;
use solana_program::{account_info::AccountInfo, entrypoint::ProgramResult, pubkey::Pubkey, system_program};

pub const DAY: u64 = 86400;
pub const P: u128 = 10_000_000_000_000_000;
pub type Info = AccountInfo<'static>;

/// 16-byte aligned zeroed buffer with a 16-byte prefix (the runtime keeps the length there)
pub fn buffer(len: usize) -> &'static mut [u8] {
    let v: Vec<u128> = vec![0u128; (len + 15) / 16 + 1];
    let b: &'static mut [u128] = Box::leak(v.into_boxed_slice());
    unsafe { std::slice::from_raw_parts_mut((b.as_mut_ptr() as *mut u8).add(16), len) }
}
pub fn k(n: u8) -> Pubkey {
    let mut a = [0x5a; 32];
    a[0] = n;
    a[31] = n;
    Pubkey::new_from_array(a)
}
pub fn pid() -> Pubkey {
    mplx_rewards::id()
}
pub fn acct(key: Pubkey, owner: Pubkey, len: usize, signer: bool, writable: bool) -> Info {
    acct_l(key, owner, len, signer, writable, 0)
}
pub fn acct_l(key: Pubkey, owner: Pubkey, len: usize, signer: bool, writable: bool, lamports: u64) -> Info {
    let key = Box::leak(Box::new(key));
    let owner = Box::leak(Box::new(owner));
    let lam = Box::leak(Box::new(lamports));
    AccountInfo::new(key, signer, writable, lam, buffer(len), owner, false, 0)
}
/// a plain wallet
pub fn wallet(key: Pubkey, signer: bool) -> Info {
    acct(key, system_program::id(), 0, signer, false)
}
pub fn token_program() -> Info {
    acct(spl_token::id(), k(250), 0, false, false)
}
pub fn system() -> Info {
    acct(system_program::id(), k(251), 0, false, false)
}
/// SPL token account bytes: mint, owner, amount, state
pub fn token_account(key: Pubkey, mint: &Pubkey, owner: &Pubkey, amount: u64) -> Info {
    let a = acct(key, spl_token::id(), 165, false, true);
    {
        let mut d = a.data.borrow_mut();
        d[0..32].copy_from_slice(mint.as_ref());
        d[32..64].copy_from_slice(owner.as_ref());
        d[64..72].copy_from_slice(&amount.to_le_bytes());
        d[108] = 1;
    }
    a
}
/// the same with whatever else a token account can hold: maybe a delegate with an allowance, maybe a close authority
/// (returns the delegate, if any)
pub fn dressed(a: Info) -> (Info, Option<Pubkey>) {
    let what = choose(3);
    let mut d = a.data.borrow_mut();
    let mut delegate = None;
    if what == 1 {
        let x = key("spender");
        d[72] = 1;
        d[76..108].copy_from_slice(x.as_ref());
        d[121..129].copy_from_slice(&u64v("allowance").to_le_bytes());
        delegate = Some(x);
    }
    if what >= 1 {
        d[129] = 1;
        d[133..165].copy_from_slice(key("closer").as_ref());
    }
    drop(d);
    (a, delegate)
}
pub fn amount_of(a: &Info) -> u64 {
    stubs::rd64(&a.data.borrow(), 64)
}
pub fn mint_account(key: Pubkey) -> Info {
    acct(key, spl_token::id(), 82, false, false)
}
pub fn pool_len() -> usize {
    WrappedRewardPool::LEN
}
pub fn mining_len() -> usize {
    WrappedMining::LEN
}
pub fn wp(a: &Info) -> WrappedRewardPool<'static> {
    let mut d = a.data.borrow_mut();
    let s: &'static mut [u8] = unsafe { std::slice::from_raw_parts_mut(d.as_mut_ptr(), d.len()) };
    drop(d);
    WrappedRewardPool::from_bytes_mut(s).ok().unwrap()
}
pub fn wm(a: &Info) -> WrappedMining<'static> {
    let mut d = a.data.borrow_mut();
    let s: &'static mut [u8] = unsafe { std::slice::from_raw_parts_mut(d.as_mut_ptr(), d.len()) };
    drop(d);
    WrappedMining::from_bytes_mut(s).ok().unwrap()
}
pub fn mining_pda(owner: &Pubkey, pool: &Pubkey) -> (Pubkey, u8) {
    Pubkey::find_program_address(&[b"mining", owner.as_ref(), pool.as_ref()], &pid())
}
pub fn vault_pda(pool: &Pubkey, mint: &Pubkey) -> (Pubkey, u8) {
    Pubkey::find_program_address(&[b"vault", pool.as_ref(), mint.as_ref()], &pid())
}

/// initialized pool account with the given roles
pub fn new_pool(key: Pubkey, deposit: &Pubkey, distribute: &Pubkey, fill: &Pubkey, mint: &Pubkey, bump: u8) -> Info {
    let a = acct(key, pid(), pool_len(), false, true);
    let w = wp(&a);
    *w.pool = RewardPool::initialize(bump, *deposit, *distribute, *fill, *mint);
    w.weighted_stake_diffs.initialize();
    w.cumulative_index.initialize();
    a
}
pub fn new_mining(key: Pubkey, pool: &Pubkey, owner: &Pubkey, bump: u8) -> Info {
    let a = acct(key, pid(), mining_len(), false, true);
    let w = wm(&a);
    *w.mining = Mining::initialize(*pool, *owner, bump);
    w.weighted_stake_diffs.initialize();
    a
}

/// symbolic current time: day number (20 bits) and second of the day
pub struct Time {
    pub d: u64,
    pub s: u64,
    pub ts: u64,
    pub bod: u64,
}
pub fn time(name_d: &str, name_s: &str) -> Time {
    let d = bits(name_d, 20);
    let s = bits(name_s, 17);
    assume(s < DAY);
    let ts = d * DAY + s;
    stubs::set_time(ts);
    Time { d, s, ts, bod: d * DAY }
}

/// n strictly increasing day numbers
pub fn days(name: &str, n: u32) -> Vec<u64> {
    let mut v = vec![];
    let mut i = 0;
    while i < n {
        let x = bits(name, 21);
        if i > 0 {
            assume(v[i as usize - 1] < x);
        }
        v.push(x);
        i += 1;
    }
    v
}
/// insertion order: every permutation of n elements (n <= 3) when `perm`, ascending otherwise
pub fn order(n: u32, perm: bool) -> Vec<usize> {
    if !perm || n < 2 {
        return (0..n as usize).collect();
    }
    if n == 2 {
        return if choose(2) == 0 { vec![0, 1] } else { vec![1, 0] };
    }
    let p: [[usize; 3]; 6] = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
    p[choose(6) as usize].to_vec()
}
pub struct Diffs {
    pub days: Vec<u64>,
    pub vals: Vec<u64>,
}
pub fn mining_diffs(a: &Info, name: &str, n: u32, perm: bool) -> Diffs {
    let w = wm(a);
    let days = days(name, n);
    let vals: Vec<u64> = (0..n).map(|_| u64v(name)).collect();
    for i in order(n, perm) {
        w.weighted_stake_diffs.insert(days[i] * DAY, vals[i]);
    }
    Diffs { days, vals }
}
pub fn pool_diffs(a: &Info, name: &str, n: u32, perm: bool) -> Diffs {
    let w = wp(a);
    let days = days(name, n);
    let vals: Vec<u64> = (0..n).map(|_| u64v(name)).collect();
    for i in order(n, perm) {
        w.weighted_stake_diffs.insert(days[i] * DAY, vals[i]);
    }
    Diffs { days, vals }
}
/// (midnight, cumulative reward per unit of weighted stake)
pub type Hist = Vec<(u64, u128)>;
/// distribution history: non-decreasing cumulative values, last one is the pool's index
pub fn history(a: &Info, n: u32, today: u64, vbits: u32, perm: bool) -> Hist {
    let w = wp(a);
    let ds = days("ci_day", n);
    let mut h: Hist = vec![];
    for i in 0..n as usize {
        assume(ds[i] <= today);
        let v = u128v("ci_val", vbits);
        if i > 0 {
            assume(h[i - 1].1 <= v);
        }
        h.push((ds[i] * DAY, v));
    }
    for i in order(n, perm) {
        w.cumulative_index.insert(h[i].0, h[i].1);
    }
    if n > 0 {
        w.pool.index_with_precision = h[n as usize - 1].1;
    }
    h
}
/// cumulative value after the last distribution on a day before `date`
pub fn hist_before(h: &Hist, date: u64) -> u128 {
    let mut i = h.len();
    while i > 0 {
        if h[i - 1].0 < date {
            return h[i - 1].1;
        }
        i -= 1;
    }
    0
}
/// rewards and index after everything up to now has been credited: each stretch between two expiries pays
/// on the stake held during it
pub fn accrue(m: &MinS, h: &Hist, bod: u64) -> (u128, u128) {
    let mut total = m.share as u128 + m.sfo as u128;
    let (mut un, mut ix) = (m.unclaimed as u128, m.index);
    let pay = |un: u128, from: u128, to: u128, total: u128| un + to.wrapping_sub(from).wrapping_mul(total) / P;
    for (d, v) in &m.wd {
        if *d > bod {
            break;
        }
        let to = hist_before(h, *d);
        un = pay(un, ix, to, total);
        ix = to;
        total = total.wrapping_sub(*v as u128);
    }
    let to = hist_before(h, bod + 1);
    (pay(un, ix, to, total), to)
}

#[derive(Clone)]
pub struct PoolS {
    pub key: Pubkey,
    pub deposit: Pubkey,
    pub distribute: Pubkey,
    pub fill: Pubkey,
    pub mint: Pubkey,
    pub index: u128,
    pub total: u64,
    pub ends: u64,
    pub avail: u64,
    pub bump: u8,
    pub data: [u8; 7],
    pub wd: Vec<(u64, u64)>,
    pub ci: Vec<(u64, u128)>,
}
#[derive(Clone)]
pub struct MinS {
    pub key: Pubkey,
    pub pool: Pubkey,
    pub owner: Pubkey,
    pub mint: Pubkey,
    pub index: u128,
    pub share: u64,
    pub unclaimed: u64,
    pub sfo: u64,
    pub bump: u8,
    pub data: [u8; 7],
    pub wd: Vec<(u64, u64)>,
}
pub fn psnap(a: &Info) -> PoolS {
    let w = wp(a);
    let p = &*w.pool;
    PoolS {
        key: *a.key,
        deposit: p.deposit_authority,
        distribute: p.distribute_authority,
        fill: p.fill_authority,
        mint: p.reward_mint,
        index: p.index_with_precision,
        total: p.total_share,
        ends: p.distribution_ends_at,
        avail: p.tokens_available_for_distribution,
        bump: p.token_account_bump,
        data: p.data,
        wd: w.weighted_stake_diffs.iter().map(|(k, v)| (*k, *v)).collect(),
        ci: w.cumulative_index.iter().map(|(k, v)| (*k, *v)).collect(),
    }
}
pub fn msnap(a: &Info) -> MinS {
    let w = wm(a);
    let m = &*w.mining;
    MinS {
        key: *a.key,
        pool: m.reward_pool,
        owner: m.owner,
        mint: m.reward_mint,
        index: m.index_with_precision,
        share: m.share,
        unclaimed: m.unclaimed_rewards,
        sfo: m.stake_from_others,
        bump: m.bump,
        data: m.data,
        wd: w.weighted_stake_diffs.iter().map(|(k, v)| (*k, *v)).collect(),
    }
}
/// sum of scheduled reductions up to and including t
pub fn sum_le(wd: &[(u64, u64)], t: u64) -> u128 {
    let mut s = 0u128;
    for (d, v) in wd {
        s += ite(*d <= t, *v, 0) as u128;
    }
    s
}
pub fn at(wd: &[(u64, u64)], t: u64) -> u128 {
    let mut s = 0u128;
    for (d, v) in wd {
        s += ite(*d == t, *v, 0) as u128;
    }
    s
}
pub fn ci_at(ci: &[(u64, u128)], t: u64) -> u128 {
    let mut s = 0u128;
    for (d, v) in ci {
        s += ite128(*d == t, *v, 0);
    }
    s
}
impl PoolS {
    /// total + (sum of later effects): W(t) = total - reductions(t); returned as (total, reductions)
    pub fn w(&self, t: u64) -> (u128, u128) {
        (self.total as u128, sum_le(&self.wd, t))
    }
}
impl MinS {
    pub fn w(&self, t: u64) -> (u128, u128) {
        (self.share as u128 + self.sfo as u128, sum_le(&self.wd, t))
    }
    pub fn own(&self, t: u64) -> (u128, u128) {
        (self.share as u128, sum_le(&self.wd, t))
    }
}
/// a' - b' == (a - b) + plus - minus  over the integers (all parts below 2^70)
pub fn delta(after: (u128, u128), before: (u128, u128), plus: u128, minus: u128) -> bool {
    after.0 + before.1 + minus == before.0 + after.1 + plus
}
/// (plus, minus) of after - before, as a pair
pub fn diff(after: (u128, u128), before: (u128, u128)) -> (u128, u128) {
    (after.0 + before.1, before.0 + after.1)
}

pub fn same_roles(a: &PoolS, b: &PoolS) -> bool {
    all(&[keq(&a.deposit, &b.deposit), keq(&a.distribute, &b.distribute), keq(&a.fill, &b.fill), keq(&a.mint, &b.mint), a.bump == b.bump, beq(&a.data, &b.data)])
}
pub fn same_ident(a: &MinS, b: &MinS) -> bool {
    all(&[keq(&a.pool, &b.pool), keq(&a.owner, &b.owner), keq(&a.mint, &b.mint), a.bump == b.bump, beq(&a.data, &b.data)])
}
/// distribution side of the pool untouched; `t` is an arbitrary date
pub fn same_dist(a: &PoolS, b: &PoolS, t: u64) -> bool {
    all(&[a.index == b.index, a.ends == b.ends, a.avail == b.avail, ci_at(&a.ci, t) == ci_at(&b.ci, t), a.ci.len() == b.ci.len()])
}

pub fn run(accounts: Vec<Info>, data: &[u8]) -> ProgramResult {
    let a: &'static [Info] = Box::leak(accounts.into_boxed_slice());
    mplx_rewards::instructions::process_instruction(&pid(), a, data)
}

// ---- wire format of the instructions (documented in idls/rewards.json), written independently of the program
pub struct Enc(pub Vec<u8>);
impl Enc {
    pub fn new(tag: u8) -> Enc {
        Enc(vec![tag])
    }
    pub fn u8(mut self, v: u8) -> Enc {
        self.0.push(v);
        self
    }
    pub fn u64(mut self, v: u64) -> Enc {
        self.0.extend_from_slice(&v.to_le_bytes());
        self
    }
    pub fn key(mut self, v: &Pubkey) -> Enc {
        self.0.extend_from_slice(v.as_ref());
        self
    }
    pub fn opt64(mut self, v: Option<u64>) -> Enc {
        match v {
            None => self.0.push(0),
            Some(x) => {
                self.0.push(1);
                self.0.extend_from_slice(&x.to_le_bytes());
            }
        }
        self
    }
}
pub fn i_init_pool(fill: &Pubkey, dist: &Pubkey) -> Vec<u8> {
    Enc::new(0).key(fill).key(dist).0
}
pub fn i_fill(rewards: u64, ends: u64) -> Vec<u8> {
    Enc::new(1).u64(rewards).u64(ends).0
}
pub fn i_init_mining(owner: &Pubkey) -> Vec<u8> {
    Enc::new(2).key(owner).0
}
pub fn i_deposit(amount: u64, period: u8, owner: &Pubkey, delegate: &Pubkey) -> Vec<u8> {
    Enc::new(3).u64(amount).u8(period).key(owner).key(delegate).0
}
pub fn i_withdraw(amount: u64, owner: &Pubkey, delegate: &Pubkey) -> Vec<u8> {
    Enc::new(4).u64(amount).key(owner).key(delegate).0
}
pub fn i_claim() -> Vec<u8> {
    vec![5]
}
#[allow(clippy::too_many_arguments)]
pub fn i_extend(old: u8, new: u8, start: u64, base: u64, add: u64, owner: &Pubkey, delegate: &Pubkey) -> Vec<u8> {
    Enc::new(6).u8(old).u8(new).u64(start).u64(base).u64(add).key(owner).key(delegate).0
}
pub fn i_distribute() -> Vec<u8> {
    vec![7]
}
pub fn i_close() -> Vec<u8> {
    vec![8]
}
pub fn i_change(amount: u64, new: &Pubkey) -> Vec<u8> {
    Enc::new(9).u64(amount).key(new).0
}
pub fn i_slash(owner: &Pubkey, native: u64, weighted: u64, exp: Option<u64>) -> Vec<u8> {
    Enc::new(10).key(owner).u64(native).u64(weighted).opt64(exp).0
}
pub fn i_decrease(owner: &Pubkey, n: u64) -> Vec<u8> {
    Enc::new(11).key(owner).u64(n).0
}

pub const MULT: [u64; 5] = [0, 1, 2, 4, 6];
pub const PDAYS: [u64; 5] = [0, 5, 90, 180, 365];
