//! Two pools, several participants: whatever combination of accounts and names an operation is given, it may
//! only ever touch one pool's books, and those of participants of that pool.
use crate::{stubs, vp::*, world::*};
use solana_program::pubkey::Pubkey;
use sokoban::NodeAllocatorMap;

struct P2 {
    key: [Pubkey; 2],
    pool: [Info; 2],
    p0: Vec<PoolS>,
    users: [Pubkey; 3],
    /// pool, user
    m: Vec<(usize, usize, Info, MinS)>,
    at: u64,
    da: Info,
    mint: Pubkey,
    vault: [Info; 2],
}
const DAY0: u64 = 19_000;
/// both pools share one deposit authority, one mint and one set of participants: the hardest case
fn two(third: bool) -> P2 {
    stubs::install(&pid());
    stubs::set_time(DAY0 * DAY + 40);
    let at = bits("at", 38);
    assume(at >= DAY0 * DAY);
    let users = [k(2), k(3), k(9)];
    let keys = [k(1), k(11)];
    let (da, mint) = (k(4), k(7));
    let mut vs = vec![];
    let mk = |i: usize, vs: &mut Vec<Info>| {
        let (vk, vb) = vault_pda(&keys[i], &mint);
        vs.push(token_account(vk, &mint, &da, 1 << 40));
        let p = new_pool(keys[i], &da, &k(5), &k(6), &mint, vb);
        let w = wp(&p);
        w.pool.total_share = bits("total", 60);
        w.pool.distribution_ends_at = (DAY0 + 10) * DAY;
        w.pool.tokens_available_for_distribution = bits("avail", 60);
        w.weighted_stake_diffs.insert((DAY0 + 85) * DAY, bits("pdiff", 50));
        p
    };
    let pool = [mk(0, &mut vs), mk(1, &mut vs)];
    let mut m = vec![];
    for p in 0..2 {
        for u in 0..if third { 3 } else { 2 } {
            let (a, b) = mining_pda(&users[u], &keys[p]);
            let i = new_mining(a, &keys[p], &users[u], b);
            let w = wm(&i);
            w.mining.share = bits("share", 50);
            w.mining.stake_from_others = bits("sfo", 50);
            w.mining.unclaimed_rewards = bits("unclaimed", 50);
            w.weighted_stake_diffs.insert((DAY0 + 85) * DAY, bits("diff", 40));
            let s = msnap(&i);
            m.push((p, u, i, s));
        }
    }
    let p0 = vec![psnap(&pool[0]), psnap(&pool[1])];
    let v1 = vs.pop().unwrap();
    let v0 = vs.pop().unwrap();
    P2 { key: keys, pool, p0, users, m, at, da: wallet(da, true), mint, vault: [v0, v1] }
}
impl P2 {
    /// in each pool, weighted stake moved by exactly what its participants' moved (decrease: pool untouched)
    fn books(&self, sum: bool) {
        for p in 0..2 {
            let (x, y) = (psnap(&self.pool[p]).w(self.at), self.p0[p].w(self.at));
            let (mut l, mut r) = (x.0 + y.1, y.0 + x.1);
            if sum {
                for (mp, _, i, s) in &self.m {
                    if *mp == p {
                        let (a, b) = (msnap(i).w(self.at), s.w(self.at));
                        l += b.0 + a.1;
                        r += a.0 + b.1;
                    }
                }
            }
            check(l == r, "iso.books");
        }
    }
    fn changed(&self, j: usize) -> bool {
        let (_, _, i, s) = &self.m[j];
        let n = msnap(i);
        not(all(&[same_ident(&n, s), n.share == s.share, n.sfo == s.sfo, n.unclaimed == s.unclaimed, n.index == s.index, crate::world::at(&n.wd, self.at) == crate::world::at(&s.wd, self.at)]))
    }
    fn pool_changed(&self, p: usize) -> bool {
        let n = psnap(&self.pool[p]);
        let s = &self.p0[p];
        not(all(&[same_roles(&n, s), same_dist(&n, s, self.at), n.total == s.total, crate::world::at(&n.wd, self.at) == crate::world::at(&s.wd, self.at)]))
    }
    /// nothing outside `keep` (participants) and pool p changed
    fn only(&self, p: usize, keep: &[usize]) {
        check(not(self.pool_changed(1 - p)), "iso.other_pool");
        for j in 0..self.m.len() {
            if !keep.contains(&j) {
                check(not(self.changed(j)), "iso.other_mining");
            }
        }
    }
}

/// params: instruction tag
#[no_mangle]
pub extern "C" fn h_iso() {
    let tag = param(0);
    let s = two(false);
    let p = pick(1, 2) as usize;
    let mi = choose(4) as usize;
    let (mp, mu) = (s.m[mi].0, s.m[mi].1);
    let mining = s.m[mi].2.clone();
    let named = choose(2) as usize;
    let a = bits("amount", 40);
    let pool = s.pool[p].clone();
    match tag {
        3 | 4 | 6 => {
            let di = choose(4) as usize;
            let (dp, du) = (s.m[di].0, s.m[di].1);
            let dn = choose(2) as usize;
            let data = match tag {
                3 => i_deposit(a, 3, &s.users[named], &s.users[dn]),
                4 => i_withdraw(a, &s.users[named], &s.users[dn]),
                _ => i_extend(3, 4, (DAY0 - 95) * DAY, a, bits("add", 40), &s.users[named], &s.users[dn]),
            };
            let r = run(vec![pool, mining, s.da.clone(), s.m[di].2.clone()], &data);
            if r.is_err() {
                return reach("err");
            }
            reach("ok");
            check(mp == p && mu == named, "iso.mining");
            check(di == mi || dp == p && du == dn, "iso.delegate");
            s.only(p, &[mi, di]);
            s.books(true);
        }
        10 | 11 => {
            let data = if tag == 10 { i_slash(&s.users[named], a, a, None) } else { i_decrease(&s.users[named], a) };
            let r = run(vec![s.da.clone(), pool, mining], &data);
            if r.is_err() {
                return reach("err");
            }
            reach("ok");
            check(mp == p && mu == named, "iso.mining");
            s.only(p, &[mi]);
            s.books(tag == 10);
        }
        8 => {
            **mining.lamports.borrow_mut() = 5000;
            let signer = choose(2) as usize;
            let target = acct_l(k(8), solana_program::system_program::id(), 0, false, true, 1);
            let before: Vec<u64> = s.m.iter().map(|x| x.2.lamports()).collect();
            let r = run(vec![mining, wallet(s.users[signer], true), target, s.da.clone(), pool], &i_close());
            if r.is_err() {
                return reach("err");
            }
            reach("ok");
            check(mp == p && mu == signer, "iso.mining");
            s.only(p, &[mi]);
            for (j, x) in s.m.iter().enumerate() {
                check(j == mi || x.2.lamports() == before[j], "iso.lamports");
            }
        }
        7 => {
            let r = run(vec![pool, wallet(k(5), true)], &i_distribute());
            if r.is_err() {
                return reach("err");
            }
            reach("ok");
            s.only(p, &[]);
        }
        1 => {
            let v = choose(2) as usize;
            let src = token_account(k(8), &s.mint, &k(6), u64v("source"));
            let (a0, a1) = (amount_of(&s.vault[0]), amount_of(&s.vault[1]));
            let r = run(vec![pool, mint_account(s.mint), s.vault[v].clone(), wallet(k(6), true), src, token_program()], &i_fill(a, (DAY0 + 20) * DAY));
            if r.is_err() {
                return reach("err");
            }
            reach("ok");
            check(v == p, "iso.vault");
            let (b0, b1) = (amount_of(&s.vault[0]), amount_of(&s.vault[1]));
            check(if p == 0 { and(b1 == a1, b0 as u128 == a0 as u128 + a as u128) } else { and(b0 == a0, b1 as u128 == a1 as u128 + a as u128) }, "iso.vault_amount");
            s.only(p, &[]);
        }
        _ => {
            let v = choose(2) as usize;
            let signer = choose(2) as usize;
            let dst = choose(2) as usize;
            let dest = token_account(k(8), &s.mint, &s.users[dst], 9);
            let (a0, a1) = (amount_of(&s.vault[0]), amount_of(&s.vault[1]));
            let r = run(vec![pool, mint_account(s.mint), s.vault[v].clone(), mining, wallet(s.users[signer], true), s.da.clone(), dest.clone(), token_program()], &i_claim());
            if r.is_err() {
                return reach("err");
            }
            reach("ok");
            check(mp == p && mu == signer && dst == signer, "iso.mining");
            check(v == p, "iso.vault");
            let (b0, b1) = (amount_of(&s.vault[0]), amount_of(&s.vault[1]));
            check(if p == 0 { b1 == a1 } else { b0 == a0 }, "iso.vault_amount");
            s.only(p, &[mi]);
            s.books(true);
        }
    }
}

/// change_delegate with every combination of accounts out of two pools and three participants
#[no_mangle]
pub extern "C" fn h_iso_change() {
    let s = two(true);
    let p = pick(0, 2) as usize;
    let mi = pick(1, 6) as usize;
    let (mp, mu) = (s.m[mi].0, s.m[mi].1);
    let oi = choose(6) as usize;
    let ni = choose(6) as usize;
    let signer = mu;
    let dn = choose(3) as usize;
    let a = bits("amount", 40);
    let accs = vec![s.pool[p].clone(), s.m[mi].2.clone(), s.da.clone(), wallet(s.users[signer], true), s.m[oi].2.clone(), s.m[ni].2.clone()];
    let r = run(accs, &i_change(a, &s.users[dn]));
    if r.is_err() {
        return reach("err");
    }
    reach("ok");
    check(mp == p, "iso.mining");
    check(oi == mi || s.m[oi].0 == p, "iso.old_delegate");
    check(ni == mi || s.m[ni].0 == p && s.m[ni].1 == dn, "iso.delegate");
    s.only(p, &[mi, oi, ni]);
    s.books(true);
}
