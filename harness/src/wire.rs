//! What clients see: lockup terms, instruction encodings, the generated client, account layouts.
use crate::{stubs, vp::*, world::*};
use borsh::BorshDeserialize;
use mplx_rewards::{instruction as b, instruction::RewardsInstruction as RI, utils::LockupPeriod as LP};
use rewards::instructions as c;
use rewards::types::LockupPeriod as CLP;
use sokoban::NodeAllocatorMap;
use solana_program::{instruction::Instruction, pubkey::Pubkey, system_program, sysvar};

pub fn period(n: u8) -> LP {
    match n {
        0 => LP::None,
        1 => LP::Flex,
        2 => LP::ThreeMonths,
        3 => LP::SixMonths,
        _ => LP::OneYear,
    }
}
fn cperiod(n: u8) -> CLP {
    match n {
        0 => CLP::None,
        1 => CLP::Flex,
        2 => CLP::ThreeMonths,
        3 => CLP::SixMonths,
        _ => CLP::OneYear,
    }
}

#[no_mangle]
pub extern "C" fn h_lockup() {
    stubs::install(&pid());
    let n = choose(5) as u8;
    let start = u64v("start");
    assume(start < 1 << 62);
    let p = period(n);
    must(true);
    check(p.multiplier() == MULT[n as usize], "lockup.multiplier");
    let (e, d) = (p.end_timestamp(start), p.days());
    if n == 0 {
        check(e.is_err(), "lockup.none");
        check(d.is_err(), "lockup.none");
        reach("none");
        return;
    }
    reach("some");
    let Ok(e) = e else {
        check(false, "lockup.end");
        return;
    };
    // the first second of the day that lies so many days after the day of the start
    check(e % DAY == 0, "lockup.midnight");
    check(e / DAY == start / DAY + PDAYS[n as usize], "lockup.end");
    check(d.ok() == Some(PDAYS[n as usize]), "lockup.days");
    // the same second given as the program's clock starts the lockup on the same day
    let later = u64v("later");
    assume(later < 1 << 62);
    if let Ok(e2) = p.end_timestamp(later) {
        check(implies(start <= later, e <= e2), "lockup.order");
        check(implies(start / DAY == later / DAY, e == e2), "lockup.day");
    }
}

pub struct Keys {
    pub prog: Pubkey,
    pub k: Vec<Pubkey>,
}
pub fn keys(n: usize) -> Keys {
    Keys { prog: key("program"), k: (0..n).map(|_| key("key")).collect() }
}
/// flags: 's' signer, 'w' must be writable, '-' neither
fn same(ix: &Instruction, prog: &Pubkey, data: &[u8], accs: &[(Pubkey, &str)], l: [&str; 3]) {
    check(keq(&ix.program_id, prog), l[0]);
    check(beq(&ix.data, data), l[1]);
    check(ix.accounts.len() == accs.len(), l[2]);
    for (m, (k, f)) in ix.accounts.iter().zip(accs) {
        check(keq(&m.pubkey, k), l[2]);
        check(m.is_signer == f.contains('s'), l[2]);
        if f.contains('w') {
            check(m.is_writable, l[2]);
        }
    }
}

pub struct Args {
    pub x: u64,
    pub y: u64,
    pub z: u64,
    pub p: u8,
    pub q: u8,
    pub o: Option<u64>,
}
/// the documented accounts and data of instruction `t`, over keys k
#[allow(clippy::type_complexity)]
pub fn want(t: u32, k: &[Pubkey], a: &Args) -> (Vec<(Pubkey, &'static str)>, Vec<u8>) {
    let tok = (spl_token::id(), "-");
    let sys = (system_program::id(), "-");
    match t {
        0 => (vec![(k[0], "w"), (k[1], "-"), (k[2], "w"), (k[3], "sw"), (k[4], "s"), (sysvar::rent::id(), "-"), tok, sys], i_init_pool(&k[5], &k[6])),
        1 => (vec![(k[0], "w"), (k[1], "-"), (k[2], "w"), (k[3], "s"), (k[4], "w"), tok], i_fill(a.x, a.y)),
        2 => (vec![(k[0], "-"), (k[1], "w"), (k[2], "sw"), sys], i_init_mining(&k[3])),
        3 => (vec![(k[0], "w"), (k[1], "w"), (k[2], "s"), (k[3], "w")], i_deposit(a.x, a.p, &k[4], &k[5])),
        4 => (vec![(k[0], "w"), (k[1], "w"), (k[2], "s"), (k[3], "w")], i_withdraw(a.x, &k[4], &k[5])),
        5 => (vec![(k[0], "-"), (k[1], "-"), (k[2], "w"), (k[3], "w"), (k[4], "s"), (k[5], "s"), (k[6], "w"), tok], i_claim()),
        6 => (vec![(k[0], "w"), (k[1], "w"), (k[2], "s"), (k[3], "w")], i_extend(a.p, a.q, a.x, a.y, a.z, &k[4], &k[5])),
        7 => (vec![(k[0], "w"), (k[1], "s")], i_distribute()),
        8 => (vec![(k[0], "w"), (k[1], "s"), (k[2], "w"), (k[3], "s"), (k[4], "-")], i_close()),
        9 => (vec![(k[0], "w"), (k[1], "w"), (k[2], "s"), (k[3], "s"), (k[4], "w"), (k[5], "w")], i_change(a.x, &k[6])),
        10 => (vec![(k[0], "s"), (k[1], "w"), (k[2], "w")], i_slash(&k[3], a.x, a.y, a.o)),
        _ => (vec![(k[0], "s"), (k[1], "-"), (k[2], "w")], i_decrease(&k[3], a.x)),
    }
}
pub fn args(t: u32) -> Args {
    let periods = t == 3 || t == 6;
    Args {
        x: u64v("x"),
        y: u64v("y"),
        z: u64v("z"),
        p: if periods { choose(5) as u8 } else { 0 },
        q: if t == 6 { choose(5) as u8 } else { 0 },
        o: if t == 10 && choose(2) == 1 { Some(u64v("date")) } else { None },
    }
}

/// the instruction as the program's own builder makes it
pub fn real(t: u32, p: &Pubkey, k: &[Pubkey], a: &Args) -> Instruction {
    match t {
        0 => b::initialize_pool(p, &k[0], &k[1], &k[2], &k[3], &k[4], &k[5], &k[6]),
        1 => b::fill_vault(p, &k[0], &k[1], &k[2], &k[3], &k[4], a.x, a.y),
        2 => b::initialize_mining(p, &k[0], &k[1], &k[2], &k[3]),
        3 => b::deposit_mining(p, &k[0], &k[1], &k[2], &k[3], a.x, period(a.p), &k[4], &k[5]),
        4 => b::withdraw_mining(p, &k[0], &k[1], &k[2], &k[3], a.x, &k[4], &k[5]),
        5 => b::claim(p, &k[0], &k[1], &k[2], &k[3], &k[4], &k[5], &k[6]),
        6 => b::extend_stake(p, &k[0], &k[1], &k[2], &k[3], period(a.p), period(a.q), a.x, a.y, a.z, &k[4], &k[5]),
        7 => b::distribute_rewards(p, &k[0], &k[1]),
        8 => b::close_mining(p, &k[0], &k[1], &k[2], &k[3], &k[4]),
        9 => b::change_delegate(p, &k[0], &k[1], &k[2], &k[3], &k[4], &k[5], &k[6], a.x),
        10 => b::slash(p, &k[0], &k[1], &k[2], &k[3], a.x, a.y, a.o),
        _ => b::decrease_rewards(p, &k[0], &k[1], &k[2], &k[3], a.x),
    }
}
/// param: instruction tag
#[no_mangle]
pub extern "C" fn h_builders() {
    let t = param(0) as u32;
    stubs::install(&pid());
    let Keys { prog, k } = keys(7);
    let a = args(t);
    let p = &prog;
    must(true);
    let ix = real(t, p, &k, &a);
    reach("built");
    let (accs, data) = want(t, &k, &a);
    same(&ix, p, &data, &accs, ["builder.program", "builder.data", "builder.accounts"]);
}

/// derived addresses: every (program, owner, pool) and (program, pool, mint)
#[no_mangle]
pub extern "C" fn h_address() {
    stubs::install(&pid());
    let (prog, a, b) = (pid(), key("a"), key("b"));
    must(true);
    let (m, bump) = mplx_rewards::utils::find_mining_program_address(&prog, &a, &b);
    let (m2, bump2) = mining_pda(&a, &b);
    check(and(keq(&m, &m2), bump == bump2), "address.mining");
    match mplx_rewards::utils::create_mining_address(&prog, &a, &b, bump) {
        Ok(x) => check(keq(&x, &m), "address.create"),
        Err(_) => check(false, "address.create"),
    }
    let (v, bump) = mplx_rewards::utils::find_vault_program_address(&prog, &a, &b);
    let (v2, bump2) = vault_pda(&a, &b);
    check(and(keq(&v, &v2), bump == bump2), "address.vault");
    // the owner's and the pool's roles are not interchangeable
    check(implies(!keq(&a, &b), !keq(&mining_pda(&b, &a).0, &m)), "address.order");
    check(!keq(&m, &v), "address.kinds");
    reach("ok");
}

pub fn rdk(d: &[u8], o: usize) -> Pubkey {
    stubs::rdkey(d, o)
}
pub fn rd(d: &[u8], o: usize) -> u64 {
    stubs::rd64(d, o)
}
pub fn pcode(p: &LP) -> u8 {
    match p {
        LP::None => 0,
        LP::Flex => 1,
        LP::ThreeMonths => 2,
        LP::SixMonths => 3,
        LP::OneYear => 4,
    }
}
/// params: first and last length of the instruction data; every byte is symbolic
#[no_mangle]
pub extern "C" fn h_decode() {
    stubs::install(&pid());
    let len = param(0) + choose((param(1) - param(0) + 1) as u32) as u64;
    let d: Vec<u8> = (0..len).map(|_| u8v("byte")).collect();
    must(true);
    let r = RI::try_from_slice(&d);
    let valid = match (d.first(), len) {
        (None, _) => false,
        (Some(t), _) => or(
            or(
                or(or(and(*t == 0, len == 65), and(*t == 1, len == 17)), or(and(*t == 2, len == 33), and(*t == 4, len == 73))),
                or(or(and(*t == 5, len == 1), and(*t == 7, len == 1)), or(and(*t == 8, len == 1), and(or(*t == 9, *t == 11), len == 41))),
            ),
            or(
                or(
                    and(*t == 3, len == 74 && d.get(9).map_or(false, |x| *x < 5)),
                    and(*t == 6, len == 91 && d.get(1).map_or(false, |x| *x < 5) && d.get(2).map_or(false, |x| *x < 5)),
                ),
                and(*t == 10, (len == 50 && d.get(49).map_or(false, |x| *x == 0)) || (len == 58 && d.get(49).map_or(false, |x| *x == 1))),
            ),
        ),
    };
    check(r.is_ok() == valid, "decode.accepts");
    let Ok(r) = r else {
        reach("refused");
        // and the program refuses it as a whole
        check(run(vec![], &d).is_err(), "decode.error");
        return;
    };
    reach("decoded");
    let f = |t: u8, c: bool| {
        check(d[0] == t, "decode.kind");
        check(c, "decode.fields");
    };
    match r {
        RI::InitializePool { fill_authority, distribute_authority } => f(0, and(keq(&fill_authority, &rdk(&d, 1)), keq(&distribute_authority, &rdk(&d, 33)))),
        RI::FillVault { rewards, distribution_ends_at } => f(1, and(rewards == rd(&d, 1), distribution_ends_at == rd(&d, 9))),
        RI::InitializeMining { mining_owner } => f(2, keq(&mining_owner, &rdk(&d, 1))),
        RI::DepositMining { amount, lockup_period, mining_owner, delegate } => {
            f(3, all(&[amount == rd(&d, 1), pcode(&lockup_period) == d[9], keq(&mining_owner, &rdk(&d, 10)), keq(&delegate, &rdk(&d, 42))]))
        }
        RI::WithdrawMining { amount, mining_owner, delegate } => f(4, all(&[amount == rd(&d, 1), keq(&mining_owner, &rdk(&d, 9)), keq(&delegate, &rdk(&d, 41))])),
        RI::Claim => f(5, true),
        RI::ExtendStake { old_lockup_period, new_lockup_period, deposit_start_ts, base_amount, additional_amount, mining_owner, delegate } => f(
            6,
            all(&[
                pcode(&old_lockup_period) == d[1],
                pcode(&new_lockup_period) == d[2],
                deposit_start_ts == rd(&d, 3),
                base_amount == rd(&d, 11),
                additional_amount == rd(&d, 19),
                keq(&mining_owner, &rdk(&d, 27)),
                keq(&delegate, &rdk(&d, 59)),
            ]),
        ),
        RI::DistributeRewards => f(7, true),
        RI::CloseMining => f(8, true),
        RI::ChangeDelegate { staked_amount, new_delegate } => f(9, and(staked_amount == rd(&d, 1), keq(&new_delegate, &rdk(&d, 9)))),
        RI::Slash { mining_owner, slash_amount_in_native, slash_amount_multiplied_by_period, stake_expiration_date } => {
            let o = match stake_expiration_date {
                None => d[49] == 0,
                Some(x) => d[49] == 1 && x == rd(&d, 50),
            };
            f(10, all(&[keq(&mining_owner, &rdk(&d, 1)), slash_amount_in_native == rd(&d, 33), slash_amount_multiplied_by_period == rd(&d, 41), o]))
        }
        RI::DecreaseRewards { mining_owner, decreased_weighted_stake_number } => f(11, and(keq(&mining_owner, &rdk(&d, 1)), decreased_weighted_stake_number == rd(&d, 33))),
    }
    // without accounts nothing succeeds
    check(run(vec![], &d).is_err(), "decode.error");
}

// ---- the generated Rust client ------------------------------------------------------------------------
const L: [&str; 3] = ["client.program", "client.data", "client.accounts"];
const LC: [&str; 3] = ["client.cpi_program", "client.cpi_data", "client.cpi_accounts"];

fn infos(k: &[Pubkey]) -> Vec<Info> {
    k.iter().map(|x| acct_l(*x, k0(), 0, true, true, 1)).collect()
}
fn k0() -> Pubkey {
    system_program::id()
}
fn sent() -> Option<Instruction> {
    stubs::last()
}
use solana_program::instruction::AccountMeta;
fn extra() -> AccountMeta {
    AccountMeta { pubkey: key("extra"), is_signer: boolv("es"), is_writable: boolv("ew") }
}
fn meta(a: &Info, m: &AccountMeta) -> AccountMeta {
    AccountMeta { pubkey: *a.key, ..m.clone() }
}
/// accounts the builder knows without being told
fn has_default(f: &str) -> bool {
    f == "token_program" || f == "system_program" || f == "rent"
}
/// takes the extra accounts off the end
fn extras(ix: &mut Instruction, n: usize, want: &[AccountMeta]) {
    check(ix.accounts.len() == n + want.len(), "client.extra");
    if ix.accounts.len() == n + want.len() {
        for (a, b) in ix.accounts[n..].iter().zip(want) {
            check(all(&[keq(&a.pubkey, &b.pubkey), a.is_signer == b.is_signer, a.is_writable == b.is_writable]), "client.extra");
        }
    }
    ix.accounts.truncate(n);
}
/// plain struct, struct with an extra account, builder, call from another program, call builder, then builder
/// and both ways to call with extra accounts, and builder without the well-known programs
macro_rules! client {
    ($t:expr, $x:ident, $args:tt, $bld:ident, $cpi:ident, $cpia:ident, $cbld:ident, [$($f:ident = $v:expr),*], [$($af:ident = $av:expr),*], [$($bf:ident),*], $want:expr, $how:expr) => {{
        let (accs, data) = $want;
        let prog = pid();
        match $how {
            0 => {
                let ix = client!(@plain c::$x { $($f: $v),* }, instruction, $args);
                same(&ix, &prog, &data, &accs, L);
            }
            1 => {
                let extra = extra();
                let mut ix = client!(@rest c::$x { $($f: $v),* }, instruction_with_remaining_accounts, $args, [extra.clone()]);
                extras(&mut ix, accs.len(), &[extra]);
                same(&ix, &prog, &data, &accs, L);
            }
            2 | 5 | 8 => {
                let mut bl = c::$bld::new();
                $(if $how != 8 || !has_default(stringify!($f)) { bl.$f($v); })*
                $(bl.$bf(client!(@arg $args, $bf));)*
                let (x, y) = (extra(), extra());
                if $how == 5 {
                    bl.add_remaining_account(x.clone()).add_remaining_account(y.clone()).add_remaining_accounts(&[y.clone(), x.clone()]);
                }
                let mut ix = bl.instruction();
                if $how == 5 {
                    extras(&mut ix, accs.len(), &[x.clone(), y.clone(), y, x]);
                }
                same(&ix, &prog, &data, &accs, L);
            }
            _ => {
                let pi = acct_l(prog, k0(), 0, false, false, 1);
                $(let $f = acct_l($v, k0(), 0, true, true, 1);)*
                let (x, y) = (extra(), extra());
                let (xi, yi) = (acct_l(crate::world::k(201), k0(), 0, true, true, 1), acct_l(crate::world::k(202), k0(), 0, true, true, 1));
                let (x, y) = (meta(&xi, &x), meta(&yi, &y));
                let more = [(&xi, x.is_writable, x.is_signer), (&yi, y.is_writable, y.is_signer)];
                if $how == 3 || $how == 6 {
                    let x = client!(@cpi c::$cpi, &pi, c::$cpia { $($f: &$f),* }, $args);
                    check(if $how == 3 { x.invoke() } else { x.invoke_with_remaining_accounts(&more) }.is_ok(), "client.cpi");
                } else {
                    let mut b = c::$cbld::new(&pi);
                    $(b.$f(&$f);)*
                    $(b.$bf(client!(@arg $args, $bf));)*
                    if $how == 7 {
                        b.add_remaining_account(&xi, x.is_writable, x.is_signer).add_remaining_accounts(&[more[1]]);
                    }
                    check(b.invoke().is_ok(), "client.cpi");
                }
                match sent() {
                    Some(mut ix) => {
                        if $how >= 6 {
                            extras(&mut ix, accs.len(), &[x, y]);
                        }
                        same(&ix, &prog, &data, &accs, LC)
                    }
                    None => check(false, "client.cpi"),
                }
            }
        }
    }};
    (@plain $s:expr, $m:ident, {}) => { $s.$m() };
    (@plain $s:expr, $m:ident, {$a:expr}) => { $s.$m($a) };
    (@rest $s:expr, $m:ident, {}, $r:expr) => { $s.$m(&$r) };
    (@rest $s:expr, $m:ident, {$a:expr}, $r:expr) => { $s.$m($a, &$r) };
    (@cpi $s:ident :: $x:ident, $p:expr, $c:expr, {}) => { $s::$x::new($p, $c) };
    (@cpi $s:ident :: $x:ident, $p:expr, $c:expr, {$a:expr}) => { $s::$x::new($p, $c, $a) };
    (@arg {}, $f:ident) => { () };
    (@arg {$a:expr}, $f:ident) => { $a.$f };
}

/// params: instruction tag, way of building
#[no_mangle]
pub extern "C" fn h_client() {
    let (t, how) = (param(0) as u32, pick(1, 9));
    stubs::install(&pid());
    let k: Vec<Pubkey> = (0..7).map(|_| key("key")).collect();
    let a = args(t);
    must(true);
    check(keq(&rewards::ID, &pid()), "client.id");
    check(keq(&rewards::programs::MPLX_REWARDS_ID, &pid()), "client.id");
    if how == 3 || how == 4 || how == 6 || how == 7 {
        // calls from another program hold each account once
        let mut all_keys = k.clone();
        all_keys.extend([pid(), spl_token::id(), system_program::id(), sysvar::rent::id()]);
        for i in 0..k.len() {
            for j in i + 1..all_keys.len() {
                assume(!keq(&all_keys[i], &all_keys[j]));
            }
        }
    }
    let w = want(t, &k, &a);
    let tok = spl_token::id();
    let sys = system_program::id();
    let rent = sysvar::rent::id();
    reach("built");
    match t {
        0 => client!(0, InitializePool, {c::InitializePoolInstructionArgs { fill_authority: k[5], distribute_authority: k[6] }}, InitializePoolBuilder, InitializePoolCpi, InitializePoolCpiAccounts, InitializePoolCpiBuilder,
            [reward_pool = k[0], reward_mint = k[1], vault = k[2], payer = k[3], deposit_authority = k[4], rent = rent, token_program = tok, system_program = sys], [], [fill_authority, distribute_authority], w, how),
        1 => client!(1, FillVault, {c::FillVaultInstructionArgs { rewards: a.x, distribution_ends_at: a.y }}, FillVaultBuilder, FillVaultCpi, FillVaultCpiAccounts, FillVaultCpiBuilder,
            [reward_pool = k[0], reward_mint = k[1], vault = k[2], fill_authority = k[3], source_token_account = k[4], token_program = tok], [], [rewards, distribution_ends_at], w, how),
        2 => client!(2, InitializeMining, {c::InitializeMiningInstructionArgs { mining_owner: k[3] }}, InitializeMiningBuilder, InitializeMiningCpi, InitializeMiningCpiAccounts, InitializeMiningCpiBuilder,
            [reward_pool = k[0], mining = k[1], payer = k[2], system_program = sys], [], [mining_owner], w, how),
        3 => client!(3, DepositMining, {c::DepositMiningInstructionArgs { amount: a.x, lockup_period: cperiod(a.p), mining_owner: k[4], delegate: k[5] }}, DepositMiningBuilder, DepositMiningCpi, DepositMiningCpiAccounts, DepositMiningCpiBuilder,
            [reward_pool = k[0], mining = k[1], deposit_authority = k[2], delegate_mining = k[3]], [], [amount, lockup_period, mining_owner, delegate], w, how),
        4 => client!(4, WithdrawMining, {c::WithdrawMiningInstructionArgs { amount: a.x, mining_owner: k[4], delegate: k[5] }}, WithdrawMiningBuilder, WithdrawMiningCpi, WithdrawMiningCpiAccounts, WithdrawMiningCpiBuilder,
            [reward_pool = k[0], mining = k[1], deposit_authority = k[2], delegate_mining = k[3]], [], [amount, mining_owner, delegate], w, how),
        5 => client!(5, Claim, {}, ClaimBuilder, ClaimCpi, ClaimCpiAccounts, ClaimCpiBuilder,
            [reward_pool = k[0], reward_mint = k[1], vault = k[2], mining = k[3], mining_owner = k[4], deposit_authority = k[5], mining_owner_reward_token_account = k[6], token_program = tok], [], [], w, how),
        6 => client!(6, ExtendStake, {c::ExtendStakeInstructionArgs { old_lockup_period: cperiod(a.p), new_lockup_period: cperiod(a.q), deposit_start_ts: a.x, base_amount: a.y, additional_amount: a.z, mining_owner: k[4], delegate: k[5] }}, ExtendStakeBuilder, ExtendStakeCpi, ExtendStakeCpiAccounts, ExtendStakeCpiBuilder,
            [reward_pool = k[0], mining = k[1], deposit_authority = k[2], delegate_mining = k[3]], [], [old_lockup_period, new_lockup_period, deposit_start_ts, base_amount, additional_amount, mining_owner, delegate], w, how),
        7 => client!(7, DistributeRewards, {}, DistributeRewardsBuilder, DistributeRewardsCpi, DistributeRewardsCpiAccounts, DistributeRewardsCpiBuilder,
            [reward_pool = k[0], distribute_authority = k[1]], [], [], w, how),
        8 => client!(8, CloseMining, {}, CloseMiningBuilder, CloseMiningCpi, CloseMiningCpiAccounts, CloseMiningCpiBuilder,
            [mining = k[0], mining_owner = k[1], target_account = k[2], deposit_authority = k[3], reward_pool = k[4]], [], [], w, how),
        9 => client!(9, ChangeDelegate, {c::ChangeDelegateInstructionArgs { staked_amount: a.x, new_delegate: k[6] }}, ChangeDelegateBuilder, ChangeDelegateCpi, ChangeDelegateCpiAccounts, ChangeDelegateCpiBuilder,
            [reward_pool = k[0], mining = k[1], deposit_authority = k[2], mining_owner = k[3], old_delegate_mining = k[4], new_delegate_mining = k[5]], [], [staked_amount, new_delegate], w, how),
        10 => slash(&k, &a, w, how),
        _ => client!(11, DecreaseRewards, {c::DecreaseRewardsInstructionArgs { mining_owner: k[3], decreased_weighted_stake_number: a.x }}, DecreaseRewardsBuilder, DecreaseRewardsCpi, DecreaseRewardsCpiAccounts, DecreaseRewardsCpiBuilder,
            [deposit_authority = k[0], reward_pool = k[1], mining = k[2]], [], [mining_owner, decreased_weighted_stake_number], w, how),
    }
}
#[allow(clippy::type_complexity)]
fn slash(k: &[Pubkey], a: &Args, (accs, data): (Vec<(Pubkey, &'static str)>, Vec<u8>), how: u32) {
    // the builder takes the optional date by value, so this one is spelled out
    let args = c::SlashInstructionArgs { mining_owner: k[3], slash_amount_in_native: a.x, slash_amount_multiplied_by_period: a.y, stake_expiration_date: a.o };
    let prog = pid();
    let plain = c::Slash { deposit_authority: k[0], reward_pool: k[1], mining: k[2] };
    if how == 0 {
        return same(&plain.instruction(args), &prog, &data, &accs, L);
    }
    let (x, y) = (extra(), extra());
    if how == 1 {
        let mut ix = plain.instruction_with_remaining_accounts(args, &[x.clone()]);
        extras(&mut ix, accs.len(), &[x]);
        return same(&ix, &prog, &data, &accs, L);
    }
    if how == 2 || how == 5 || how == 8 {
        let mut b = c::SlashBuilder::new();
        b.deposit_authority(k[0]).reward_pool(k[1]).mining(k[2]).mining_owner(k[3]).slash_amount_in_native(a.x).slash_amount_multiplied_by_period(a.y);
        if let Some(d) = a.o {
            b.stake_expiration_date(d);
        }
        if how == 5 {
            b.add_remaining_account(x.clone()).add_remaining_account(y.clone()).add_remaining_accounts(&[y.clone(), x.clone()]);
        }
        let mut ix = b.instruction();
        if how == 5 {
            extras(&mut ix, accs.len(), &[x.clone(), y.clone(), y, x]);
        }
        return same(&ix, &prog, &data, &accs, L);
    }
    let pi = acct_l(prog, k0(), 0, false, false, 1);
    let i = infos(&k[0..3]);
    let (xi, yi) = (acct_l(crate::world::k(201), k0(), 0, true, true, 1), acct_l(crate::world::k(202), k0(), 0, true, true, 1));
    let (x, y) = (meta(&xi, &x), meta(&yi, &y));
    let more = [(&xi, x.is_writable, x.is_signer), (&yi, y.is_writable, y.is_signer)];
    let ok = if how == 3 || how == 6 {
        let b = c::SlashCpi::new(&pi, c::SlashCpiAccounts { deposit_authority: &i[0], reward_pool: &i[1], mining: &i[2] }, args);
        if how == 3 {
            b.invoke()
        } else {
            b.invoke_with_remaining_accounts(&more)
        }
    } else {
        let mut b = c::SlashCpiBuilder::new(&pi);
        b.deposit_authority(&i[0]).reward_pool(&i[1]).mining(&i[2]).mining_owner(k[3]).slash_amount_in_native(a.x).slash_amount_multiplied_by_period(a.y);
        if let Some(d) = a.o {
            b.stake_expiration_date(d);
        }
        if how == 7 {
            b.add_remaining_account(&xi, x.is_writable, x.is_signer).add_remaining_accounts(&[more[1]]);
        }
        b.invoke()
    };
    check(ok.is_ok(), "client.cpi");
    match sent() {
        Some(mut ix) => {
            if how >= 6 {
                extras(&mut ix, accs.len(), &[x, y]);
            }
            same(&ix, &prog, &data, &accs, LC)
        }
        None => check(false, "client.cpi"),
    }
}

/// error numbers and enum encodings of the client
#[no_mangle]
pub extern "C" fn h_client_codes() {
    use mplx_rewards::error::MplxRewardsError as E;
    use rewards::errors::MplxRewardsError as C;
    stubs::install(&pid());
    must(true);
    let pairs: [(E, C, u32); 16] = [
        (E::InvalidAccountOwner, C::InvalidAccountOwner, 0),
        (E::MathOverflow, C::MathOverflow, 1),
        (E::RewardsNoDeposits, C::RewardsNoDeposits, 2),
        (E::InvalidLockupPeriod, C::InvalidLockupPeriod, 3),
        (E::DistributionInThePast, C::DistributionInThePast, 4),
        (E::InvalidPrimitiveTypesConversion, C::InvalidPrimitiveTypesConversion, 5),
        (E::RewardsMustBeClaimed, C::RewardsMustBeClaimed, 6),
        (E::RewardsMustBeGreaterThanZero, C::RewardsMustBeGreaterThanZero, 7),
        (E::StakeFromOthersMustBeZero, C::StakeFromOthersMustBeZero, 8),
        (E::NoWeightedStakeModifiersAtADate, C::NoWeightedStakeModifiersAtADate, 9),
        (E::DelegatesAreTheSame, C::DelegatesAreTheSame, 10),
        (E::RetreivingZeroCopyAccountFailire, C::RetreivingZeroCopyAccountFailire, 11),
        (E::AlreadyInitialized, C::AlreadyInitialized, 12),
        (E::InvalidMining, C::InvalidMining, 13),
        (E::DerivationError, C::DerivationError, 14),
        (E::DecreaseRewardsTooBig, C::DecreaseRewardsTooBig, 15),
    ];
    for (e, c, n) in pairs {
        let p: solana_program::program_error::ProgramError = e.into();
        check(p == solana_program::program_error::ProgramError::Custom(n), "client.error");
        check(c as u32 == n, "client.error");
    }
    // every byte: the client's enums decode exactly what the program encodes
    let x = u8v("byte");
    let d = [x];
    let q: Result<CLP, _> = borsh10::BorshDeserialize::try_from_slice(&d);
    let r: Result<LP, _> = BorshDeserialize::try_from_slice(&d);
    check(q.is_ok() == (x < 5), "client.period");
    check(r.is_ok() == (x < 5), "client.period");
    if let (Ok(q), Ok(r)) = (&q, &r) {
        check(q.clone() as u8 == x, "client.period");
        check(pcode(r) == x, "client.period");
        check(borsh::to_vec(r).ok().map_or(false, |v| v.len() == 1 && v[0] == x), "client.period");
        reach("period");
    }
    let q: Result<rewards::types::AccountType, _> = borsh10::BorshDeserialize::try_from_slice(&d);
    let r: Result<mplx_rewards::state::AccountType, _> = BorshDeserialize::try_from_slice(&d);
    check(q.is_ok() == (x < 3), "client.account_type");
    check(r.is_ok() == (x < 3), "client.account_type");
    if let (Ok(q), Ok(r)) = (q, r) {
        check(q as u8 == x, "client.account_type");
        check(u8::from(r.clone()) == x, "client.account_type");
        check(mplx_rewards::state::AccountType::from(x) == r, "client.account_type");
        reach("type");
    }
}

// ---- account layout -------------------------------------------------------------------------------------
pub fn sym_bytes(a: &Info, from: usize, to: usize) {
    let mut d = a.data.borrow_mut();
    for i in from..to {
        d[i] = u8v("byte");
    }
}
pub fn rd128(d: &[u8], o: usize) -> u128 {
    rd(d, o) as u128 | (rd(d, o + 8) as u128) << 64
}
/// every pool header: the program's view, its read-only view, the client's view and the documented offsets agree
#[no_mangle]
pub extern "C" fn h_layout_pool() {
    stubs::install(&pid());
    must(true);
    check(pool_len() == 64480, "layout.size");
    check(mplx_rewards::state::RewardPool::LEN == 176, "layout.size");
    check(rewards::accounts::RewardPool::LEN == 176, "layout.size");
    let a = new_pool(k(1), &k(4), &k(5), &k(6), &k(7), 255);
    {
        let d = a.data.borrow();
        check(d[169] == 1, "layout.kind");
    }
    sym_bytes(&a, 0, 176);
    let pd = pool_diffs(&a, "pdiff", 2, true);
    let w = wp(&a);
    let h: Vec<(u64, u128)> = (0..2).map(|_| (u64v("date"), u128v("value", 128))).collect();
    assume(h[0].0 != h[1].0);
    for (x, y) in &h {
        w.cumulative_index.insert(*x, *y);
    }
    let d: Vec<u8> = a.data.borrow()[0..176].to_vec();
    let keys = [rdk(&d, 0), rdk(&d, 32), rdk(&d, 64), rdk(&d, 96)];
    let nums = [rd(&d, 144), rd(&d, 152), rd(&d, 160)];
    let ix = rd128(&d, 128);
    let p = &*w.pool;
    check(
        all(&[
            keq(&p.deposit_authority, &keys[0]),
            keq(&p.distribute_authority, &keys[1]),
            keq(&p.fill_authority, &keys[2]),
            keq(&p.reward_mint, &keys[3]),
            p.index_with_precision == ix,
            p.total_share == nums[0],
            p.distribution_ends_at == nums[1],
            p.tokens_available_for_distribution == nums[2],
            p.token_account_bump == d[168],
            beq(&p.data, &d[169..176]),
        ]),
        "layout.pool",
    );
    let data = a.data.borrow();
    match mplx_rewards::state::WrappedImmutableRewardPool::from_bytes(&data) {
        Ok(r) => {
            let q = r.pool;
            check(
                all(&[
                    keq(&q.deposit_authority, &keys[0]),
                    keq(&q.distribute_authority, &keys[1]),
                    keq(&q.fill_authority, &keys[2]),
                    keq(&q.reward_mint, &keys[3]),
                    q.index_with_precision == ix,
                    q.total_share == nums[0],
                    q.distribution_ends_at == nums[1],
                    q.tokens_available_for_distribution == nums[2],
                    q.token_account_bump == d[168],
                ]),
                "layout.readonly",
            );
            let mut n = 0;
            for (i, (x, y)) in r.weighted_stake_diffs.iter().enumerate() {
                check(and(*x == pd.days[i] * DAY, *y == pd.vals[i]), "layout.readonly_schedule");
                n += 1;
            }
            check(n == 2, "layout.readonly_schedule");
            for (x, y) in &h {
                check(r.cumulative_index.get(x).map_or(false, |v| *v == *y), "layout.readonly_history");
            }
        }
        Err(_) => check(false, "layout.readonly"),
    }
    let cl = if choose(2) == 0 { rewards::accounts::RewardPool::from_bytes(&data[..]) } else {
        drop(data);
        rewards::accounts::RewardPool::try_from(&a)
    };
    match cl {
        Ok(q) => check(
            all(&[
                keq(&q.deposit_authority, &keys[0]),
                keq(&q.distribute_authority, &keys[1]),
                keq(&q.fill_authority, &keys[2]),
                keq(&q.reward_mint, &keys[3]),
                q.index_with_precision == ix,
                q.total_share == nums[0],
                q.distribution_ends_at == nums[1],
                q.tokens_available_for_distribution == nums[2],
                q.token_account_bump == d[168],
                beq(&q.data, &d[169..176]),
            ]),
            "layout.client",
        ),
        Err(_) => check(false, "layout.client"),
    }
    reach("ok");
}
#[no_mangle]
pub extern "C" fn h_layout_mining() {
    stubs::install(&pid());
    must(true);
    check(mplx_rewards::state::Mining::LEN == 144, "layout.size");
    check(rewards::accounts::Mining::LEN == 144, "layout.size");
    check(mining_len() == 144 + std::mem::size_of::<mplx_rewards::state::MiningWeightedStakeDiffs>(), "layout.size");
    let a = new_mining(k(1), &k(4), &k(5), 255);
    {
        let d = a.data.borrow();
        check(d[137] == 2, "layout.kind");
    }
    sym_bytes(&a, 0, 144);
    let md = mining_diffs(&a, "mdiff", 2, true);
    let w = wm(&a);
    let d: Vec<u8> = a.data.borrow()[0..144].to_vec();
    let keys = [rdk(&d, 0), rdk(&d, 32), rdk(&d, 64)];
    let nums = [rd(&d, 112), rd(&d, 120), rd(&d, 128)];
    let ix = rd128(&d, 96);
    let m = &*w.mining;
    check(
        all(&[
            keq(&m.reward_pool, &keys[0]),
            keq(&m.owner, &keys[1]),
            keq(&m.reward_mint, &keys[2]),
            m.index_with_precision == ix,
            m.share == nums[0],
            m.unclaimed_rewards == nums[1],
            m.stake_from_others == nums[2],
            m.bump == d[136],
            beq(&m.data, &d[137..144]),
        ]),
        "layout.mining",
    );
    let data = a.data.borrow();
    match mplx_rewards::state::WrappedImmutableMining::from_bytes(&data) {
        Ok(r) => {
            let q = r.mining;
            check(
                all(&[
                    keq(&q.reward_pool, &keys[0]),
                    keq(&q.owner, &keys[1]),
                    q.index_with_precision == ix,
                    q.share == nums[0],
                    q.unclaimed_rewards == nums[1],
                    q.stake_from_others == nums[2],
                    q.bump == d[136],
                ]),
                "layout.readonly",
            );
            let mut n = 0;
            for (i, (x, y)) in r.weighted_stake_diffs.iter().enumerate() {
                check(and(*x == md.days[i] * DAY, *y == md.vals[i]), "layout.readonly_schedule");
                n += 1;
            }
            check(n == 2, "layout.readonly_schedule");
        }
        Err(_) => check(false, "layout.readonly"),
    }
    let cl = if choose(2) == 0 { rewards::accounts::Mining::from_bytes(&data[..]) } else {
        drop(data);
        rewards::accounts::Mining::try_from(&a)
    };
    match cl {
        Ok(q) => check(
            all(&[
                keq(&q.reward_pool, &keys[0]),
                keq(&q.owner, &keys[1]),
                keq(&q.reward_mint, &keys[2]),
                q.index_with_precision == ix,
                q.share == nums[0],
                q.unclaimed_rewards == nums[1],
                q.stake_from_others == nums[2],
                q.bump == d[136],
                beq(&q.data, &d[137..144]),
            ]),
            "layout.client",
        ),
        Err(_) => check(false, "layout.client"),
    }
    reach("ok");
}
