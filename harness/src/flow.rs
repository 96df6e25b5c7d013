//! Distribution, funding, claiming, closing and creation.
use crate::{ops::*, stubs, stubs::CpiKind, vp::*, world::*};
use solana_program::system_program;

/// params: nc np perm live
#[no_mangle]
pub extern "C" fn h_distribute() {
    let c = Cfg { nc: param(0) as u32, np: param(1) as u32, nm: 0, nd: 0, del: false, perm: param(2) == 1, live: param(3) == 1, alias: 0 };
    let s = scn(&c);
    let auth = wallet(s.p0.distribute, true);
    let (tot, gone) = (s.p0.total as u128, sum_le(&s.p0.wd, s.t.bod));
    let days = s.p0.ends.saturating_sub(s.t.ts) / DAY;
    let done = !s.hist.is_empty() && s.hist[s.hist.len() - 1].0 == s.t.bod;
    if c.live {
        assume(s.p0.avail < 1 << 40);
        assume(tot > gone);
        must(true);
    }
    let r = run(vec![s.pool.clone(), auth], &i_distribute());
    if c.live {
        check(r.is_ok(), "distribute.live");
    }
    if s.p0.total == 0 {
        reach("empty");
        let p1 = psnap(&s.pool);
        check(or(r.is_err(), all(&[done, same_dist(&p1, &s.p0, s.at), p1.total == 0])), "distribute.empty");
        return;
    }
    if r.is_err() {
        reach("err");
        return;
    }
    reach("ok");
    let p1 = psnap(&s.pool);
    let at = s.at;
    check(delta(p1.w(at), s.p0.w(at), 0, 0), "distribute.stake");
    check(same_roles(&p1, &s.p0), "distribute.roles");
    check(p1.ends == s.p0.ends, "distribute.ends");
    check(stubs::cpis().is_empty(), "distribute.cpi");
    check(midnight(&p1.wd), "distribute.midnight");
    if done {
        reach("again");
        check(same_dist(&p1, &s.p0, at), "distribute.once");
        return;
    }
    let mut later = true;
    for (d, v) in &p1.wd {
        later = and(later, or(*d > s.t.bod, *v == 0));
    }
    check(later, "distribute.settled");
    check(p1.total as u128 + gone == tot, "distribute.total");
    reach("first");
    let r = if days == 0 {
        reach("all");
        s.p0.avail
    } else {
        reach("part");
        s.p0.avail / days
    };
    check(p1.avail.wrapping_add(r) == s.p0.avail, "distribute.amount");
    check(r <= s.p0.avail, "distribute.limit");
    // per unit of what is still staked today: p1.total, shown above to be total minus everything expired
    let paid = s.p0.avail.wrapping_sub(p1.avail);
    let idx = s.p0.index.wrapping_add(P.wrapping_mul(paid as u128) / p1.total as u128);
    check(p1.index == idx, "distribute.index");
    check(p1.ci.len() == s.p0.ci.len() + 1, "distribute.history_len");
    // the new history entry is today's, everything before is as it was
    check(ci_at(&p1.ci, s.t.bod) == p1.index, "distribute.history");
    let other = bits("other", 38);
    assume(other != s.t.bod);
    check(ci_at(&p1.ci, other) == ci_at(&s.p0.ci, other), "distribute.past");
}

/// A pool is emptied by its schedule: k daily distributions, at any second of each day. params: k (days), live
#[no_mangle]
pub extern "C" fn h_schedule() {
    stubs::install(&pid());
    let n = param(0);
    let d0 = bits("day", 20);
    let (pk, dak) = (k(1), k(4));
    let pool = new_pool(pk, &dak, &k(5), &k(6), &k(7), 255);
    let avail = u64v("avail");
    let total = u64v("total");
    let end = d0 + param(0);
    {
        let w = wp(&pool);
        w.pool.total_share = total;
        w.pool.distribution_ends_at = end * DAY;
        w.pool.tokens_available_for_distribution = avail;
    }
    let mut left = avail;
    for i in 0..n + 1 {
        let s = bits("sec", 17);
        assume(s < DAY);
        stubs::set_time((d0 + i) * DAY + s);
        let r = run(vec![pool.clone(), wallet(k(5), true)], &i_distribute());
        assume(r.is_ok());
        let p = psnap(&pool);
        check(p.avail <= left, "schedule.monotone");
        if i + 1 == n && s > 0 || i == n {
            check(p.avail == 0, "schedule.drained");
        }
        left = p.avail;
    }
    reach("ok");
}

/// params: nc live
#[no_mangle]
pub extern "C" fn h_fill() {
    stubs::install(&pid());
    let t = time("day", "sec");
    let (pk, dak) = (k(1), k(4));
    let mint = k(7);
    let (vk, vb) = vault_pda(&pk, &mint);
    let live = param(1) == 1;
    // one authority may have several roles, and name the vault itself as the source
    let case = if live { 0 } else { choose(3) };
    let fa = if case == 0 { k(6) } else { dak };
    let pool = new_pool(pk, &dak, &k(5), &fa, &mint, vb);
    {
        let w = wp(&pool);
        w.pool.total_share = u64v("total");
        w.pool.distribution_ends_at = bits("ends0", 38);
        w.pool.tokens_available_for_distribution = u64v("avail");
    }
    history(&pool, param(0) as u32, t.d, VB, false);
    pool_diffs(&pool, "pdiff", 1, false);
    let at = bits("at", 38);
    let vault = token_account(vk, &mint, &dak, u64v("vault_balance"));
    let source = if case == 2 { vault.clone() } else { token_account(k(8), &mint, &fa, u64v("source_balance")) };
    let rewards = u64v("rewards");
    let ends = bits("new_ends", if param(1) == 1 { 40 } else { 64 });
    let p0 = psnap(&pool);
    let (v0, s0) = (amount_of(&vault), amount_of(&source));
    let eb = ends - ends % DAY;
    if live {
        assume(p0.ends % DAY == 0);
        assume(rewards > 0);
        assume(rewards <= s0);
        assume(v0 as u128 + (rewards as u128) < 1 << 64);
        assume(p0.avail as u128 + (rewards as u128) < 1 << 64);
        assume(eb >= t.bod);
        assume(eb >= p0.ends);
        must(true);
    }
    let r = run(vec![pool.clone(), mint_account(mint), vault.clone(), wallet(fa, true), source.clone(), token_program()], &i_fill(rewards, ends));
    if live {
        check(r.is_ok(), "fill.live");
    }
    if r.is_err() {
        reach("err");
        return;
    }
    check(case != 2, "fill.itself");
    reach("ok");
    let p1 = psnap(&pool);
    check(rewards > 0, "fill.zero");
    check(eb >= t.bod, "fill.past");
    check(eb >= p0.ends, "fill.not_earlier");
    check(p1.ends == eb, "fill.ends");
    check(p1.avail as u128 == p0.avail as u128 + rewards as u128, "fill.avail");
    check(amount_of(&vault) as u128 == v0 as u128 + rewards as u128, "fill.vault");
    check(amount_of(&source) as u128 + rewards as u128 == s0 as u128, "fill.source");
    check(same_roles(&p1, &p0), "fill.roles");
    check(all(&[p1.index == p0.index, p1.total == p0.total, ci_at(&p1.ci, at) == ci_at(&p0.ci, at), p1.ci.len() == p0.ci.len(), crate::world::at(&p1.wd, at) == crate::world::at(&p0.wd, at)]), "fill.rest");
    let c = stubs::cpis();
    check(c.len() == 1 && c[0].kind == CpiKind::Transfer, "fill.transfers");
    check(all(&[keq(&c[0].a, source.key), keq(&c[0].b, vault.key), keq(&c[0].auth, &fa), c[0].amount == rewards]), "fill.transfer");
}

/// params as for the stake operations
#[no_mangle]
pub extern "C" fn h_claim() {
    let c = cfg(0);
    let s = scn(&c);
    let mint = k(7);
    let (vk, vb) = vault_pda(&s.p0.key, &mint);
    wp(&s.pool).pool.token_account_bump = vb;
    let p0 = psnap(&s.pool);
    let vault = token_account(vk, &mint, &s.p0.deposit, u64v("vault_balance"));
    let dest = token_account(k(8), &mint, &s.owner, u64v("dest_balance"));
    let (v0, d0) = (amount_of(&vault), amount_of(&dest));
    let owner = s.owner_info();
    let e = accrue(&s.m0, &s.hist, s.t.bod);
    if c.live {
        assume(e.0 <= v0 as u128);
        assume(d0 < 1 << 62);
        must(true);
    }
    // the pool needs no write access
    let mut pool_ro = s.pool.clone();
    pool_ro.is_writable = false;
    let accs = vec![pool_ro, mint_account(mint), vault.clone(), s.mining.clone(), owner, s.da.clone(), dest.clone(), token_program()];
    let r = run(accs.clone(), &i_claim());
    if c.live {
        check(r.is_ok(), "claim.live");
    }
    if r.is_err() {
        reach("err");
        return;
    }
    reach("ok");
    let paid = amount_of(&dest).wrapping_sub(d0) as u128;
    check(amount_of(&dest) >= d0, "claim.dest");
    check(paid == e.0, "claim.amount");
    check(amount_of(&vault) as u128 + e.0 == v0 as u128, "claim.vault");
    let (p1, m1) = (psnap(&s.pool), msnap(&s.mining));
    let cp = stubs::cpis();
    if e.0 == 0 {
        reach("nothing");
        check(cp.iter().all(|x| x.kind == CpiKind::Transfer && x.amount == 0), "claim.transfers");
    } else {
        reach("paid");
        check(cp.len() == 1 && cp[0].kind == CpiKind::Transfer, "claim.transfers");
        check(all(&[keq(&cp[0].a, vault.key), keq(&cp[0].b, dest.key), keq(&cp[0].auth, &s.p0.deposit)]), "claim.transfer");
    }
    let rd = stubs::ret();
    check(match &rd { Some(v) => v.len() == 8 && stubs::rd64(v, 0) as u128 == e.0, None => false }, "claim.return");
    check(m1.unclaimed == 0, "claim.cleared");
    check(m1.index == e.1, "claim.index");
    check(same_ident(&m1, &s.m0), "claim.ident");
    let at = s.at;
    check(delta(m1.own(at), s.m0.own(at), 0, 0), "claim.own");
    check(m1.sfo == s.m0.sfo, "claim.sfo");
    check(settled(&m1, s.t.bod), "claim.settled");
    check(same_roles(&p1, &p0), "claim.roles");
    check(same_dist(&p1, &p0, at), "claim.dist");
    check(delta(p1.w(at), p0.w(at), 0, 0), "claim.pool");
    // a second claim in the same state pays nothing
    let (v1, d1) = (amount_of(&vault), amount_of(&dest));
    let r = run(accs, &i_claim());
    check(or(r.is_err(), and(amount_of(&vault) == v1, amount_of(&dest) == d1)), "claim.twice");
}

/// params as for the stake operations
#[no_mangle]
pub extern "C" fn h_close() {
    let c = cfg(0);
    let s = scn(&c);
    let (ml, tl) = (u64v("mining_lamports"), u64v("target_lamports"));
    **s.mining.lamports.borrow_mut() = ml;
    let mut owner = s.owner_info();
    let mut da = s.da.clone();
    owner.is_writable = true;
    da.is_writable = true;
    // the lamports go to an account of their own, to the deposit authority or to the participant
    let target = match choose(3) {
        0 => acct_l(k(8), system_program::id(), 0, false, true, tl),
        1 => da.clone(),
        _ => owner.clone(),
    };
    **target.lamports.borrow_mut() = tl;
    let e = accrue(&s.m0, &s.hist, s.t.bod);
    if c.live {
        assume(e.0 == 0);
        assume(s.m0.sfo == 0);
        assume(ml as u128 + (tl as u128) < 1 << 64);
        must(true);
    }
    let r = run(vec![s.mining.clone(), owner.clone(), target.clone(), da, s.pool.clone()], &i_close());
    if c.live {
        check(r.is_ok(), "close.live");
    }
    if r.is_err() {
        reach("err");
        return;
    }
    reach("ok");
    check(s.m0.sfo == 0, "close.delegated");
    check(e.0 == 0, "close.unclaimed");
    check(target.lamports() as u128 == ml as u128 + tl as u128, "close.lamports");
    check(s.mining.lamports() == 0, "close.drained");
    let z = vec![0u8; mining_len()];
    check(beq(&s.mining.data.borrow(), &z), "close.erased");
    let p1 = psnap(&s.pool);
    check(and(same_roles(&p1, &s.p0), same_dist(&p1, &s.p0, s.at)), "close.pool");
    check(delta(p1.w(s.at), s.p0.w(s.at), 0, 0), "close.stake");
    check(stubs::cpis().is_empty(), "close.cpi");
}

#[no_mangle]
pub extern "C" fn h_init_pool() {
    stubs::install(&pid());
    let t = time("day", "sec");
    let (pk, dak, mint) = (k([1, 135, 68, 53][choose(4) as usize]), k(4), k(7)); // addresses with different real bumps
    let (fill, dist) = (key("fill"), key("dist"));
    let (vk, vb) = vault_pda(&pk, &mint);
    let pool = acct(pk, pid(), pool_len(), false, true);
    // anybody may have sent lamports there before
    let sent = bits("sent", 39);
    let vault = acct_l(vk, system_program::id(), 0, false, true, sent);
    let payer = acct_l(k(10), system_program::id(), 0, true, true, 1 << 40);
    let rent = acct(solana_program::sysvar::rent::id(), k(252), 17, false, false);
    let da = wallet(dak, true);
    let accs = vec![pool.clone(), mint_account(mint), vault.clone(), payer.clone(), da, rent, token_program(), system()];
    must(true);
    let r = run(accs.clone(), &i_init_pool(&fill, &dist));
    check(r.is_ok(), "init_pool.live");
    if r.is_err() {
        return;
    }
    reach("ok");
    let p = psnap(&pool);
    check(and(keq(&p.deposit, &dak), and(keq(&p.fill, &fill), and(keq(&p.distribute, &dist), keq(&p.mint, &mint)))), "init_pool.roles");
    check(p.bump == vb, "init_pool.bump");
    check(p.index == 0 && p.total == 0 && p.ends == 0 && p.avail == 0 && p.wd.is_empty() && p.ci.is_empty(), "init_pool.empty");
    check(p.data == [1, 0, 0, 0, 0, 0, 0], "init_pool.type");
    // the vault: an SPL account of the reward mint at the derived address, controlled by the deposit authority
    check(keq(vault.owner, &spl_token::id()) && vault.data_len() == 165, "init_pool.vault_account");
    {
        let d = vault.data.borrow();
        check(d.len() == 165 && d[108] == 1 && beq(&d[0..32], mint.as_ref()) && beq(&d[32..64], dak.as_ref()), "init_pool.vault");
    }
    let rent = solana_program::rent::Rent { lamports_per_byte_year: 3480, exemption_threshold: 2.0, burn_percent: 50 };
    check(vault.lamports() >= rent.minimum_balance(165), "init_pool.rent");
    check(payer.lamports() + vault.lamports() == (1 << 40) + sent, "init_pool.payer");
    // a second initialization is refused whatever happened to the pool since and leaves it as it is
    {
        let w = wp(&pool);
        w.pool.total_share = u64v("total");
        w.pool.tokens_available_for_distribution = u64v("avail");
        w.pool.distribution_ends_at = bits("ends", 38);
    }
    history(&pool, param(0) as u32, t.d, VB, false);
    pool_diffs(&pool, "pdiff", param(0) as u32, false);
    let p0 = psnap(&pool);
    let at = bits("at", 38);
    let (fill2, dist2) = (key("fill2"), key("dist2"));
    let which = choose(2);
    let mint2 = if which == 0 { mint } else { k(17) };
    let (vk2, _) = vault_pda(&pk, &mint2);
    // an attacker may even bring a vault of a different mint that does not exist yet
    let vault2 = if which == 0 { vault.clone() } else { acct_l(vk2, system_program::id(), 0, false, true, bits("sent2", 39)) };
    let mut accs2 = accs;
    accs2[1] = mint_account(mint2);
    accs2[2] = vault2;
    accs2[4] = wallet(k(14), true);
    let r = run(accs2, &i_init_pool(&fill2, &dist2));
    check(r.is_err(), "init_pool.once");
    let p1 = psnap(&pool);
    check(and(same_roles(&p1, &p0), same_dist(&p1, &p0, at)), "init_pool.kept");
}

/// the address given for the vault decides
#[no_mangle]
pub extern "C" fn h_init_pool_bad() {
    stubs::install(&pid());
    let (pk, dak, mint) = (k(1), k(4), k(7));
    let (vk, _) = vault_pda(&pk, &mint);
    let kind = choose(8);
    let plen = if kind == 1 { pool_len() + 8 } else if kind == 2 { pool_len() - 8 } else { pool_len() };
    let powner = if kind == 3 { key("pool_owner") } else { pid() };
    assume(or(kind != 3, !keq(&powner, &pid())));
    let pool = acct(pk, powner, plen, false, true);
    let vkey = match kind {
        0 => key("vault"),
        4 => vault_pda(&pk, &k(17)).0,
        5 => vault_pda(&k(11), &mint).0,
        _ => vk,
    };
    let signs = (kind == 0 || kind == 4 || kind == 5) && boolv("vault_signs");
    let vault = acct_l(vkey, system_program::id(), 0, signs, true, bits("sent", 39));
    let payer = acct_l(k(10), system_program::id(), 0, kind != 6, true, 1 << 40);
    let rent = acct(solana_program::sysvar::rent::id(), k(252), 17, false, false);
    let da = wallet(dak, kind != 7);
    let r = run(vec![pool.clone(), mint_account(mint), vault, payer, da, rent, token_program(), system()], &i_init_pool(&k(6), &k(5)));
    reach("ran");
    check(r.is_err(), "init_pool.refuse");
}

#[no_mangle]
pub extern "C" fn h_init_mining() {
    stubs::install(&pid());
    time("day", "sec");
    let kind = choose(7);
    // addresses with different real bumps
    let (pk, owner) = (k(1), k(if kind == 0 { [2, 4, 108, 175][choose(4) as usize] } else { 2 }));
    let pool = new_pool(pk, &k(4), &k(5), &k(6), &k(7), 255);
    let (mk, mb) = mining_pda(&owner, &pk);
    let mkey = match kind {
        1 => key("mining"),
        2 => mining_pda(&k(3), &pk).0,
        3 => mining_pda(&owner, &k(11)).0,
        _ => mk,
    };
    // anybody may have sent lamports there before
    let sent = bits("sent", 39);
    let mining = if kind == 4 {
        // exists already
        let m = new_mining(mk, &pk, &owner, mb);
        **m.lamports.borrow_mut() = 5_000_000;
        wm(&m).mining.share = u64v("share");
        m
    } else {
        // an address that is not the derived one is refused whether or not it signs
        let signs = (1..4).contains(&kind) && boolv("mining_signs");
        acct_l(mkey, system_program::id(), 0, signs, true, sent)
    };
    let pool_owner = if kind == 5 { key("pool_owner") } else { pid() };
    assume(or(kind != 5, !keq(&pool_owner, &pid())));
    pool.assign(&pool_owner);
    let payer = acct_l(k(10), system_program::id(), 0, kind != 6, true, 1 << 40);
    if kind == 0 {
        must(true);
    }
    let (m0, l0) = (if kind == 4 { Some(msnap(&mining)) } else { None }, mining.lamports());
    let r = run(vec![pool.clone(), mining.clone(), payer.clone(), system()], &i_init_mining(&owner));
    if kind != 0 {
        reach("refused");
        check(r.is_err(), "init_mining.refuse");
        if let Some(m0) = m0 {
            let m1 = msnap(&mining);
            check(all(&[same_ident(&m0, &m1), m1.share == m0.share, mining.lamports() == l0]), "init_mining.kept");
        }
        return;
    }
    check(r.is_ok(), "init_mining.live");
    if r.is_err() {
        return;
    }
    reach("ok");
    check(keq(mining.owner, &pid()) && mining.data_len() == mining_len(), "init_mining.account");
    let m = msnap(&mining);
    check(all(&[keq(&m.pool, &pk), keq(&m.owner, &owner), m.bump == mb]), "init_mining.ident");
    check(m.index == 0 && m.share == 0 && m.unclaimed == 0 && m.sfo == 0 && m.wd.is_empty(), "init_mining.empty");
    check(m.data == [2, 0, 0, 0, 0, 0, 0], "init_mining.type");
    let rent = solana_program::rent::Rent { lamports_per_byte_year: 3480, exemption_threshold: 2.0, burn_percent: 50 };
    check(mining.lamports() >= rent.minimum_balance(mining_len()), "init_mining.rent");
    check(payer.lamports() + mining.lamports() == (1 << 40) + sent, "init_mining.payer");
}
/// A mining created today with an arbitrary distribution history behind it earns nothing from the past.
/// params: nc
#[no_mangle]
pub extern "C" fn h_newcomer() {
    let mut c = cfg(0);
    c.nm = 0;
    c.del = false;
    let s = scn(&c);
    {
        let w = wm(&s.mining);
        w.mining.share = 0;
        w.mining.stake_from_others = 0;
        w.mining.unclaimed_rewards = 0;
        w.mining.index_with_precision = 0;
    }
    let a = u64v("amount");
    let r = run(vec![s.pool.clone(), s.mining.clone(), s.da.clone(), s.mining.clone()], &i_deposit(a, pick(7, 4) as u8 + 1, &s.owner, &s.owner));
    if r.is_err() {
        reach("err");
        return;
    }
    reach("ok");
    let m1 = msnap(&s.mining);
    check(m1.unclaimed == 0, "newcomer.unclaimed");
    check(s.hist.is_empty() || m1.index == s.hist[s.hist.len() - 1].1, "newcomer.index");
}
