//! Several participants share distributions: together they never get more than was distributed, and no less
//! than that up to rounding.
use crate::{deep::D0, stubs, vp::*, world::*};
use sokoban::NodeAllocatorMap;
use solana_program::pubkey::Pubkey;

/// params: participants, distributions, with schedules, where they start, amounts of any size
#[no_mangle]
pub extern "C" fn h_solvent() {
    let (n, nd, sched) = (param(0) as usize, param(1), param(2) == 1);
    stubs::install(&pid());
    let (pk, dak, mint) = (k(1), k(4), k(7));
    let (vk, vb) = vault_pda(&pk, &mint);
    let pool = new_pool(pk, &dak, &k(5), &k(6), &mint, vb);
    let wide = param(4) == 1;
    let avail = bits("avail", if wide { 60 } else { 44 });
    let mut total = 0u64;
    let mut ms: Vec<(Pubkey, Info, u64)> = vec![];
    let mut sums = [0u64; 3];
    let ix = u128v("index", 66);
    for i in 0..n {
        let owner = k(20 + i as u8);
        let (mk, mb) = mining_pda(&owner, &pk);
        let m = new_mining(mk, &pk, &owner, mb);
        let w = wm(&m);
        let (share, sfo, un) = (bits("share", if wide { 61 } else { 44 }), bits("sfo", if wide { 60 } else { 42 }), bits("unclaimed", 42));
        w.mining.share = share;
        w.mining.stake_from_others = sfo;
        w.mining.unclaimed_rewards = un;
        w.mining.index_with_precision = ix;
        total += share + sfo;
        if sched {
            // expires on the day of a distribution, between two, or later
            let j = (i + param(3) as usize) % 3;
            let v = bits("diff", if wide { 60 } else { 43 });
            assume(v <= share);
            w.weighted_stake_diffs.insert((D0 + j as u64) * DAY, v);
            sums[j] += v;
        }
        ms.push((owner, m, un));
    }
    {
        let w = wp(&pool);
        w.pool.total_share = total;
        w.pool.index_with_precision = ix;
        w.pool.tokens_available_for_distribution = avail;
        w.pool.distribution_ends_at = (D0 + 3) * DAY;
        w.cumulative_index.insert((D0 - 3) * DAY, ix);
        for j in 0..3 {
            if sched && n > (j + 3 - param(3) as usize) % 3 {
                w.weighted_stake_diffs.insert((D0 + j as u64) * DAY, sums[j]);
            }
        }
    }
    for i in 0..nd {
        let sec = bits("sec", 17);
        assume(sec < DAY);
        stubs::set_time((D0 + i) * DAY + sec);
        let r = run(vec![pool.clone(), wallet(k(5), true)], &i_distribute());
        assume(r.is_ok());
    }
    let given = avail.wrapping_sub(psnap(&pool).avail) as u128;
    let w_last = psnap(&pool).total as u128;
    let vault = token_account(vk, &mint, &dak, u64v("vault_balance"));
    let mut paid = 0u128;
    for (o, m, un) in &ms {
        let dest = token_account(k(8), &mint, o, 0);
        let r = run(vec![pool.clone(), mint_account(mint), vault.clone(), m.clone(), wallet(*o, true), wallet(dak, true), dest.clone(), token_program()], &i_claim());
        assume(r.is_ok());
        let p = amount_of(&dest);
        check(p >= *un, "solvent.kept");
        paid += p.wrapping_sub(*un) as u128;
    }
    reach("ok");
    let _ = w_last;
    check(paid <= given, "solvent.no_more");
    // rounding: less than one token per participant and stretch, and less than one per distribution for the
    // index, as long as the pool's stake stays below the precision
    let stretches = if sched { 4 } else { 1 };
    check(paid + n as u128 * stretches + nd as u128 >= given, "solvent.no_less");
}
