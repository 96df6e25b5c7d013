//! The published interface description (idls/) against the program: what is encoded and listed as it says is
//! what the program's own builders make, account fields are where it says, names and numbers are the program's.
use crate::{stubs, vp::*, wire::*, world::*};
use borsh::BorshDeserialize;
use mplx_rewards::utils::LockupPeriod as LP;
use solana_program::{pubkey::Pubkey, system_program, sysvar};

pub struct Acc {
    pub name: &'static str,
    pub writable: bool,
    pub signer: bool,
    pub optional: bool,
}
pub struct Ins {
    pub name: &'static str,
    pub tag_type: &'static str,
    pub tag: u64,
    pub accounts: &'static [Acc],
    pub args: &'static [(&'static str, &'static str)],
}
include!(env!("VP_IDL"));

/// names of the twelve instructions, of their accounts in no particular order with the harness's key for each,
/// and of their arguments with the harness's value
enum Val {
    U64(u64),
    Key(Pubkey),
    Period(u8),
    Opt(Option<u64>),
}
const NAMES: [&str; 12] = [
    "InitializePool", "FillVault", "InitializeMining", "DepositMining", "WithdrawMining", "Claim", "ExtendStake", "DistributeRewards", "CloseMining", "ChangeDelegate", "Slash", "DecreaseRewards",
];
fn account(t: u32, n: &str, k: &[Pubkey]) -> Option<Pubkey> {
    match n {
        "rent" => return Some(sysvar::rent::id()),
        "tokenProgram" => return Some(spl_token::id()),
        "systemProgram" => return Some(system_program::id()),
        _ => {}
    }
    let l: &[&str] = match t {
        0 => &["rewardPool", "rewardMint", "vault", "payer", "depositAuthority"],
        1 => &["rewardPool", "rewardMint", "vault", "fillAuthority", "sourceTokenAccount"],
        2 => &["rewardPool", "mining", "payer"],
        3 | 4 | 6 => &["rewardPool", "mining", "depositAuthority", "delegateMining"],
        5 => &["rewardPool", "rewardMint", "vault", "mining", "miningOwner", "depositAuthority", "miningOwnerRewardTokenAccount"],
        7 => &["rewardPool", "distributeAuthority"],
        8 => &["mining", "miningOwner", "targetAccount", "depositAuthority", "rewardPool"],
        9 => &["rewardPool", "mining", "depositAuthority", "miningOwner", "oldDelegateMining", "newDelegateMining"],
        _ => &["depositAuthority", "rewardPool", "mining"],
    };
    l.iter().position(|x| *x == n).map(|i| k[i])
}
fn argument(t: u32, n: &str, k: &[Pubkey], a: &Args) -> Option<Val> {
    use Val::*;
    Some(match (t, n) {
        (0, "fillAuthority") => Key(k[5]),
        (0, "distributeAuthority") => Key(k[6]),
        (1, "rewards") => U64(a.x),
        (1, "distributionEndsAt") => U64(a.y),
        (2, "miningOwner") => Key(k[3]),
        (3, "amount") | (4, "amount") => U64(a.x),
        (3, "lockupPeriod") => Period(a.p),
        (3, "miningOwner") | (4, "miningOwner") | (6, "miningOwner") => Key(k[4]),
        (3, "delegate") | (4, "delegate") | (6, "delegate") => Key(k[5]),
        (6, "oldLockupPeriod") => Period(a.p),
        (6, "newLockupPeriod") => Period(a.q),
        (6, "depositStartTs") => U64(a.x),
        (6, "baseAmount") => U64(a.y),
        (6, "additionalAmount") => U64(a.z),
        (9, "stakedAmount") => U64(a.x),
        (9, "newDelegate") => Key(k[6]),
        (10, "miningOwner") | (11, "miningOwner") => Key(k[3]),
        (10, "slashAmountInNative") => U64(a.x),
        (10, "slashAmountMultipliedByPeriod") => U64(a.y),
        (10, "stakeExpirationDate") => Opt(a.o),
        (11, "decreasedWeightedStakeNumber") => U64(a.x),
        _ => return None,
    })
}
fn variants(n: &str) -> &'static [&'static str] {
    ENUMS.iter().find(|e| e.0 == n).map_or(&[], |e| e.1)
}
const PERIODS: [&str; 5] = ["None", "Flex", "ThreeMonths", "SixMonths", "OneYear"];

/// params: instruction
#[no_mangle]
pub extern "C" fn h_idl() {
    let t = param(0) as u32;
    stubs::install(&pid());
    let Keys { prog, k } = keys(7);
    let a = args(t);
    must(true);
    check(INSTRUCTIONS.len() == 12, "idl.instructions");
    let mut found = 0;
    for i in INSTRUCTIONS {
        if i.name == NAMES[t as usize] {
            found += 1;
        }
    }
    check(found == 1, "idl.instructions");
    let Some(ins) = INSTRUCTIONS.iter().find(|i| i.name == NAMES[t as usize]) else { return };
    // encoded as the description says
    check(ins.tag_type == "u8" && ins.tag < 256, "idl.data");
    let mut data = vec![ins.tag as u8];
    for (n, ty) in ins.args {
        match (argument(t, n, &k, &a), *ty) {
            (Some(Val::U64(x)), "u64") => data.extend_from_slice(&x.to_le_bytes()),
            (Some(Val::Key(x)), "publicKey") => data.extend_from_slice(x.as_ref()),
            (Some(Val::Period(x)), "LockupPeriod") => {
                let p = variants("LockupPeriod").iter().position(|v| *v == PERIODS[x as usize]);
                data.push(p.unwrap_or(255) as u8)
            }
            (Some(Val::Opt(None)), "option:u64") => data.push(0),
            (Some(Val::Opt(Some(x))), "option:u64") => {
                data.push(1);
                data.extend_from_slice(&x.to_le_bytes())
            }
            _ => check(false, "idl.arguments"),
        }
    }
    let ix = real(t, &prog, &k, &a);
    reach("built");
    check(ix.data.len() == data.len() && beq(&ix.data, &data), "idl.data");
    let (need, _) = want(t, &k, &a);
    check(ins.accounts.len() == ix.accounts.len() && ins.accounts.len() == need.len(), "idl.accounts");
    for ((d, m), (_, f)) in ins.accounts.iter().zip(&ix.accounts).zip(&need) {
        check(!d.optional, "idl.accounts");
        match account(t, d.name, &k) {
            Some(x) => check(keq(&x, &m.pubkey), "idl.accounts"),
            None => check(false, "idl.accounts"),
        }
        check(d.signer == m.is_signer, "idl.signers");
        check(d.writable || !f.contains('w'), "idl.writable");
    }
}

/// params: 0 pool, 1 mining
#[no_mangle]
pub extern "C" fn h_idl_state() {
    let kind = param(0);
    stubs::install(&pid());
    must(true);
    let (name, len) = if kind == 0 { ("RewardPool", 176) } else { ("Mining", 144) };
    let a = if kind == 0 { new_pool(k(1), &k(4), &k(5), &k(6), &k(7), 255) } else { new_mining(k(8), &k(1), &k(2), 255) };
    sym_bytes(&a, 0, len);
    let d: Vec<u8> = a.data.borrow()[0..len].to_vec();
    let mut found = 0;
    for (n, _) in ACCOUNTS {
        if *n == name {
            found += 1;
        }
    }
    check(found == 1, "idl.state");
    let Some((_, fs)) = ACCOUNTS.iter().find(|x| x.0 == name) else { return };
    let (mut o, mut seen) = (0usize, 0);
    for (f, ty) in fs.iter() {
        let n = match *ty {
            "publicKey" => 32,
            "u128" => 16,
            "u64" => 8,
            "u8" => 1,
            "array:u8:7" => 7,
            _ => {
                check(false, "idl.field");
                return;
            }
        };
        if o + n > len {
            check(false, "idl.size");
            return;
        }
        seen += 1;
        let (kk, nn, ii, bb, aa) = (
            |p: &Pubkey| *ty == "publicKey" && keq(p, &rdk(&d, o)),
            |x: u64| and(*ty == "u64", *ty != "u64" || x == rd(&d, o)),
            |x: u128| and(*ty == "u128", *ty != "u128" || x == rd128(&d, o)),
            |x: u8| and(*ty == "u8", x == d[o]),
            |x: &[u8]| *ty == "array:u8:7" && beq(x, &d[o..o + 7]),
        );
        let ok = if kind == 0 {
            let w = wp(&a);
            let p = &*w.pool;
            match *f {
                "depositAuthority" => kk(&p.deposit_authority),
                "distributeAuthority" => kk(&p.distribute_authority),
                "fillAuthority" => kk(&p.fill_authority),
                "rewardMint" => kk(&p.reward_mint),
                "indexWithPrecision" => ii(p.index_with_precision),
                "totalShare" => nn(p.total_share),
                "distributionEndsAt" => nn(p.distribution_ends_at),
                "tokensAvailableForDistribution" => nn(p.tokens_available_for_distribution),
                "tokenAccountBump" => bb(p.token_account_bump),
                "data" => aa(&p.data),
                _ => false,
            }
        } else {
            let w = wm(&a);
            let m = &*w.mining;
            match *f {
                "rewardPool" => kk(&m.reward_pool),
                "owner" => kk(&m.owner),
                "rewardMint" => kk(&m.reward_mint),
                "indexWithPrecision" => ii(m.index_with_precision),
                "share" => nn(m.share),
                "unclaimedRewards" => nn(m.unclaimed_rewards),
                "stakeFromOthers" => nn(m.stake_from_others),
                "bump" => bb(m.bump),
                "data" => aa(&m.data),
                _ => false,
            }
        };
        check(ok, "idl.field");
        o += n;
    }
    check(o == len && seen == if kind == 0 { 10 } else { 9 }, "idl.size");
    reach("ok");
}

#[no_mangle]
pub extern "C" fn h_idl_codes() {
    use mplx_rewards::error::MplxRewardsError as E;
    stubs::install(&pid());
    must(true);
    check(ADDRESS == pid().to_string(), "idl.address");
    let errors: [(E, &str); 16] = [
        (E::InvalidAccountOwner, "InvalidAccountOwner"),
        (E::MathOverflow, "MathOverflow"),
        (E::RewardsNoDeposits, "RewardsNoDeposits"),
        (E::InvalidLockupPeriod, "InvalidLockupPeriod"),
        (E::DistributionInThePast, "DistributionInThePast"),
        (E::InvalidPrimitiveTypesConversion, "InvalidPrimitiveTypesConversion"),
        (E::RewardsMustBeClaimed, "RewardsMustBeClaimed"),
        (E::RewardsMustBeGreaterThanZero, "RewardsMustBeGreaterThanZero"),
        (E::StakeFromOthersMustBeZero, "StakeFromOthersMustBeZero"),
        (E::NoWeightedStakeModifiersAtADate, "NoWeightedStakeModifiersAtADate"),
        (E::DelegatesAreTheSame, "DelegatesAreTheSame"),
        (E::RetreivingZeroCopyAccountFailire, "RetreivingZeroCopyAccountFailire"),
        (E::AlreadyInitialized, "AlreadyInitialized"),
        (E::InvalidMining, "InvalidMining"),
        (E::DerivationError, "DerivationError"),
        (E::DecreaseRewardsTooBig, "DecreaseRewardsTooBig"),
    ];
    check(ERRORS.len() == 16, "idl.errors");
    for (e, n) in errors {
        let p: solana_program::program_error::ProgramError = e.into();
        let c = ERRORS.iter().find(|x| x.1 == n).map_or(u32::MAX, |x| x.0 as u32);
        check(p == solana_program::program_error::ProgramError::Custom(c), "idl.errors");
    }
    // every byte decodes to the variant at that place in the description
    let x = u8v("byte");
    let d = [x];
    let (ps, ks) = (variants("LockupPeriod"), variants("AccountType"));
    let r: Result<LP, _> = BorshDeserialize::try_from_slice(&d);
    check(r.is_ok() == ((x as usize) < ps.len()), "idl.period");
    if let Ok(r) = &r {
        check(ps.iter().position(|v| *v == PERIODS[choose_code(r)]).map_or(false, |i| i as u8 == x), "idl.period");
        reach("period");
    }
    let r: Result<mplx_rewards::state::AccountType, _> = BorshDeserialize::try_from_slice(&d);
    check(r.is_ok() == ((x as usize) < ks.len()), "idl.account_type");
    if let Ok(r) = &r {
        use mplx_rewards::state::AccountType as T;
        let n = match r {
            T::Uninitialized => "Uninitialized",
            T::RewardPool => "RewardPool",
            T::Mining => "Mining",
        };
        check(ks.iter().position(|v| *v == n).map_or(false, |i| i as u8 == x), "idl.account_type");
        reach("type");
    }
}
fn choose_code(p: &LP) -> usize {
    match p {
        LP::None => 0,
        LP::Flex => 1,
        LP::ThreeMonths => 2,
        LP::SixMonths => 3,
        LP::OneYear => 4,
    }
}
