//! Who may do what: every account's address, owner program and signature is arbitrary, the stored roles are
//! arbitrary, and whatever the program accepts must have come from the right people for the right accounts.
use crate::{stubs, vp::*, world::*};
use sokoban::NodeAllocatorMap;
use solana_program::{pubkey::Pubkey, system_program};

struct Who {
    info: Info,
    signed: bool,
}
/// an arbitrary account offered in a signer's place
fn who(name: &str) -> Who {
    let signed = boolv("signed");
    Who { info: acct(key(name), system_program::id(), 0, signed, true), signed }
}
/// program the account belongs to: the right one or any other
fn owned(a: &Info, right: &Pubkey) -> bool {
    if choose(2) == 1 {
        let o = key("other_program");
        assume(!keq(&o, right));
        a.assign(&o);
        return false;
    }
    true
}
const N: u64 = 1000;
/// any stake, delegated stake and unclaimed rewards
fn stake(a: &Info) {
    let m = wm(a);
    m.mining.share = bits("share", 62);
    m.mining.stake_from_others = bits("sfo", 62);
    m.mining.unclaimed_rewards = bits("unclaimed", 62);
}
/// any moment
fn now() -> u64 {
    let (d, s) = (bits("day", 21), bits("sec", 17));
    assume(s < DAY);
    let bod = d * DAY;
    stubs::set_time(bod + s);
    bod
}

/// params: instruction tag
#[no_mangle]
pub extern "C" fn h_auth() {
    stubs::install(&pid());
    let tag = param(0);
    let bod = now();
    let n = bits("amount", 60);
    let pk = k(1);
    let (rd, rs, rf) = (key("deposit_role"), key("distribute_role"), key("fill_role"));
    let mint = k(7);
    let (vk, vb) = vault_pda(&pk, &mint);
    let pool = new_pool(pk, &rd, &rs, &rf, &mint, vb);
    {
        let w = wp(&pool);
        w.pool.total_share = bits("total", 62);
        w.pool.distribution_ends_at = bits("ends", 38);
        w.pool.tokens_available_for_distribution = bits("avail", 60);
        if tag == 6 || tag == 10 {
            w.weighted_stake_diffs.insert(bod + 9 * DAY, bits("pdiff", 60));
        }
    }
    let pool_right = owned(&pool, &pid());
    // the participant's account: address derived for (o, p) where the stored contents may say something else
    let stored_owner = key("stored_owner");
    let stored_pool = if choose(2) == 0 { pk } else { key("stored_pool") };
    let (mk, mb) = match pick(1, 3) {
        0 => mining_pda(&stored_owner, &pk),
        1 => mining_pda(&key("derived_owner"), &pk),
        _ => (key("mining"), 255),
    };
    let mining = new_mining(mk, &stored_pool, &stored_owner, mb);
    stake(&mining);
    if tag == 6 || tag == 10 {
        wm(&mining).weighted_stake_diffs.insert(bod + 9 * DAY, bits("diff", 60));
    }
    let mining_right = owned(&mining, &pid());
    let m0 = msnap(&mining);
    let p0 = psnap(&pool);
    let da = who("deposit_signer");
    let du = and(da.signed, keq(da.info.key, &rd));
    let named = if choose(2) == 0 { stored_owner } else { key("named_owner") };
    let mine = |owner: &Pubkey| all(&[keq(&stored_owner, owner), keq(&stored_pool, &pk), mining_right, pool_right, keq(&mk, &derived(owner, &pk, mb))]);
    if tag == 3 || tag == 4 || tag == 6 {
        let dn = key("named_delegate");
        let (dk, db) = match choose(4) {
            0 => (mk, mb),
            1 => mining_pda(&dn, &pk),
            2 => mining_pda(&dn, &k(11)),
            _ => (key("delegate_mining"), 254),
        };
        let same = dk == mk && db == mb;
        let d = if same { mining.clone() } else { let d = new_mining(dk, &pk, &dn, db); stake(&d); d };
        let d_right = if same { mining_right } else { owned(&d, &pid()) };
        let data = match tag {
            3 => i_deposit(n, 3, &named, &dn),
            4 => i_withdraw(n, &named, &dn),
            // one that has run out, or one that ends in nine days
            _ if choose(2) == 0 => i_extend(1, 4, 0, n, bits("more", 60), &named, &dn),
            _ => {
                assume(bod > 90 * DAY);
                i_extend(2, 4, bod + 9 * DAY - 90 * DAY, n, bits("more", 60), &named, &dn)
            }
        };
        if run(vec![pool.clone(), mining.clone(), da.info.clone(), d.clone()], &data).is_err() {
            return reach("err");
        }
        reach("ok");
        check(du, "auth.deposit_authority");
        check(mine(&named), "auth.mining");
        check(and(d_right, or(keq(d.key, mining.key), keq(d.key, &derived(&dn, &pk, db)))), "auth.delegate");
        return;
    }
    if tag == 9 {
        let owner = who("owner_signer");
        let dn = key("named_delegate");
        let (nk, nb) = match choose(4) {
            0 => (mk, mb),
            1 => mining_pda(&dn, &pk),
            2 => mining_pda(&dn, &k(11)),
            _ => (key("new_delegate_mining"), 254),
        };
        let new_self = nk == mk && nb == mb;
        let new = if new_self { mining.clone() } else { let d = new_mining(nk, &pk, &dn, nb); stake(&d); d };
        let n_right = if new_self { mining_right } else { owned(&new, &pid()) };
        let oo = key("old_delegate");
        let (ok, ob, opool) = match choose(3) {
            0 => (mk, mb, pk),
            1 => { let (a, b) = mining_pda(&oo, &pk); (a, b, pk) }
            _ => { let (a, b) = mining_pda(&oo, &k(11)); (a, b, k(11)) }
        };
        let old_self = ok == mk && ob == mb;
        let old = if old_self { mining.clone() } else { let d = new_mining(ok, &opool, &oo, ob); stake(&d); d };
        let o_right = if old_self { mining_right } else { owned(&old, &pid()) };
        let accs = vec![pool.clone(), mining.clone(), da.info.clone(), owner.info.clone(), old.clone(), new.clone()];
        if run(accs, &i_change(n, &dn)).is_err() {
            return reach("err");
        }
        reach("ok");
        check(du, "auth.deposit_authority");
        check(and(owner.signed, keq(owner.info.key, &stored_owner)), "auth.owner");
        check(mine(&stored_owner), "auth.mining");
        check(and(n_right, or(keq(new.key, mining.key), keq(new.key, &derived(&dn, &pk, nb)))), "auth.delegate");
        check(and(o_right, or(old_self, opool == pk)), "auth.old_delegate");
        return;
    }
    if tag == 10 || tag == 11 {
        let data = match tag {
            11 => i_decrease(&named, n),
            _ if choose(2) == 0 => i_slash(&named, bits("native", 60), n, None),
            _ => i_slash(&named, bits("native", 60), n, Some(bod + 9 * DAY)),
        };
        if run(vec![da.info.clone(), pool.clone(), mining.clone()], &data).is_err() {
            return reach("err");
        }
        reach("ok");
        check(du, "auth.deposit_authority");
        check(mine(&named), "auth.mining");
        return;
    }
    if tag == 8 {
        let owner = who("owner_signer");
        let target = acct_l(k(8), system_program::id(), 0, false, true, 5);
        let target_right = owned(&target, &system_program::id());
        **mining.lamports.borrow_mut() = bits("lamports", 60);
        if run(vec![mining.clone(), owner.info.clone(), target.clone(), da.info.clone(), pool.clone()], &i_close()).is_err() {
            return reach("err");
        }
        reach("ok");
        check(du, "auth.deposit_authority");
        check(and(owner.signed, keq(owner.info.key, &stored_owner)), "auth.owner");
        check(all(&[keq(&stored_pool, &pk), mining_right, pool_right]), "auth.mining");
        check(target_right, "auth.target");
        return;
    }
    if tag == 7 {
        let s = who("distribute_signer");
        if run(vec![pool.clone(), s.info.clone()], &i_distribute()).is_err() {
            return reach("err");
        }
        reach("ok");
        check(and(s.signed, keq(s.info.key, &rs)), "auth.distribute_authority");
        check(pool_right, "auth.pool");
        return;
    }
    // a vault: the pool's own, that of another pool, of another mint, or any other token account
    let vkey = match choose(4) {
        0 => vk,
        1 => vault_pda(&k(11), &mint).0,
        2 => vault_pda(&pk, &k(17)).0,
        _ => key("vault"),
    };
    let vauth = if choose(2) == 0 { rd } else { key("vault_owner") };
    let vault = token_account(vkey, &mint, &vauth, bits("vault_balance", 62));
    let vault_right = owned(&vault, &spl_token::id());
    if tag == 5 {
        let owner = who("owner_signer");
        // any token account, or the vault itself
        let to_vault = choose(2) == 1;
        let dest_owner = if to_vault { vauth } else { key("dest_owner") };
        let dest = if to_vault { vault.clone() } else { dressed(token_account(k(8), &mint, &dest_owner, bits("dest_balance", 62))).0 };
        let d0 = amount_of(&dest);
        let dest_right = if to_vault { vault_right } else { owned(&dest, &spl_token::id()) };
        let accs = vec![pool.clone(), mint_account(mint), vault.clone(), mining.clone(), owner.info.clone(), da.info.clone(), dest.clone(), token_program()];
        if run(accs, &i_claim()).is_err() {
            return reach("err");
        }
        reach("ok");
        check(du, "auth.deposit_authority");
        check(and(owner.signed, keq(owner.info.key, &stored_owner)), "auth.owner");
        check(all(&[keq(&stored_pool, &pk), mining_right, pool_right]), "auth.mining");
        check(and(vault_right, keq(&vkey, &vk)), "auth.vault");
        check(and(dest_right, keq(&dest_owner, &stored_owner)), "auth.destination");
        check(amount_of(&dest) == d0 + m0.unclaimed, "auth.paid");
        return;
    }
    if tag == 1 {
        let s = who("fill_signer");
        // any token account, or the vault itself
        let from_vault = choose(2) == 1;
        let src_owner = if from_vault { vauth } else { key("source_owner") };
        let (src, spender) = if from_vault { (vault.clone(), None) } else { dressed(token_account(k(8), &mint, &src_owner, bits("source_balance", 62))) };
        let v0 = amount_of(&vault);
        let src_right = owned(&src, &spl_token::id());
        let accs = vec![pool.clone(), mint_account(mint), vault.clone(), s.info.clone(), src.clone(), token_program()];
        if run(accs, &i_fill(n, bits("end", 38))).is_err() {
            return reach("err");
        }
        reach("ok");
        check(and(s.signed, keq(s.info.key, &rf)), "auth.fill_authority");
        check(pool_right, "auth.pool");
        check(and(vault_right, keq(&vkey, &vk)), "auth.vault");
        // the source is the authority's own, or one it may spend from
        check(and(src_right, or(keq(&src_owner, &rf), spender.map_or(false, |x| keq(&x, &rf)))), "auth.source");
        check(psnap(&pool).avail == p0.avail + n, "auth.filled");
        check(amount_of(&vault) == v0 + n, "auth.funded");
    }
}
fn derived(owner: &Pubkey, pool: &Pubkey, bump: u8) -> Pubkey {
    Pubkey::create_program_address(&[b"mining", owner.as_ref(), pool.as_ref(), &[bump]], &pid()).unwrap_or_default()
}

/// Instruction data with anything missing or anything added is refused, on the very accounts on which the proper
/// data is accepted. params: instruction tag
#[no_mangle]
pub extern "C" fn h_strict() {
    stubs::install(&pid());
    let (accs, data, _, _) = plain(param(0));
    must(true);
    let full = data.len();
    match choose(3) {
        0 => {
            let cut = choose(full as u32) as usize;
            reach("short");
            check(run(accs, &data[..cut]).is_err(), "strict.short");
        }
        1 => {
            let mut d = data.clone();
            for _ in 0..1 + choose(9) {
                d.push(u8v("byte"));
            }
            reach("long");
            check(run(accs, &d).is_err(), "strict.long");
        }
        _ => {
            let mut d = data.clone();
            let t = u8v("tag");
            assume(t > 11);
            d[0] = t;
            reach("unknown");
            check(run(accs, &d).is_err(), "strict.unknown");
        }
    }
}
/// the accounts and data of a call that can succeed
pub fn plain(tag: u64) -> (Vec<Info>, Vec<u8>, Info, Info) {
    stubs::set_time(19_000 * DAY + 7);
    let (pk, u, da, mint) = (k(1), k(2), k(4), k(7));
    let (vk, vb) = vault_pda(&pk, &mint);
    let pool = new_pool(pk, &da, &k(5), &k(6), &mint, vb);
    wp(&pool).pool.total_share = u64v("total");
    let (mk, mb) = mining_pda(&u, &pk);
    let mining = new_mining(mk, &pk, &u, mb);
    stake(&mining);
    let w = |x: u8| wallet(k(x), true);
    let vault = token_account(vk, &mint, &da, 1 << 30);
    let (accs, data) = match tag {
        1 => (vec![pool.clone(), mint_account(mint), vault, w(6), token_account(k(8), &mint, &k(6), 1 << 20), token_program()], i_fill(100, 19_020 * DAY)),
        3 => (vec![pool.clone(), mining.clone(), w(4), mining.clone()], i_deposit(N, 3, &u, &u)),
        4 => (vec![pool.clone(), mining.clone(), w(4), mining.clone()], i_withdraw(N, &u, &u)),
        5 => (vec![pool.clone(), mint_account(mint), vault, mining.clone(), w(2), w(4), token_account(k(8), &mint, &u, 3), token_program()], i_claim()),
        6 => (vec![pool.clone(), mining.clone(), w(4), mining.clone()], i_extend(1, 4, 0, N, N, &u, &u)),
        7 => (vec![pool.clone(), w(5)], i_distribute()),
        8 => {
            let t = acct_l(k(8), system_program::id(), 0, false, true, 5);
            (vec![mining.clone(), w(2), t, w(4), pool.clone()], i_close())
        }
        9 => {
            let (d, b) = mining_pda(&k(3), &pk);
            let old = new_mining(d, &pk, &k(3), b);
            stake(&old);
            (vec![pool.clone(), mining.clone(), w(4), w(2), old, mining.clone()], i_change(N, &u))
        }
        10 => (vec![w(4), pool.clone(), mining.clone()], i_slash(&u, N, N, None)),
        _ => (vec![w(4), pool.clone(), mining.clone()], i_decrease(&u, N)),
    };
    (accs, data, pool, mining)
}

/// A missing account is an error, whatever the rest looks like. params: instruction tag, accounts given
#[no_mangle]
pub extern "C" fn h_missing() {
    stubs::install(&pid());
    let (accs, data, pool, mining) = plain(param(0));
    let (p0, m0) = (psnap(&pool), msnap(&mining));
    let full = accs.len();
    let cut = choose(full as u32 + 1) as usize;
    let r = run(accs[..cut].to_vec(), &data);
    if cut < full {
        reach("short");
        check(r.is_err(), "missing.refused");
        let (p1, m1) = (psnap(&pool), msnap(&mining));
        check(all(&[p1.total == p0.total, p1.avail == p0.avail, m1.share == m0.share, m1.unclaimed == m0.unclaimed]), "missing.kept");
    } else {
        reach("full");
    }
}

/// An account is taken only for what it is: in the place of a participant's account a pool (any addresses for its roles
/// and its mint), a closed account or another participant's; in the place of a pool a participant's account, an
/// account never initialised or a closed one. params: instruction tag
#[no_mangle]
pub extern "C" fn h_kind() {
    stubs::install(&pid());
    let tag = param(0);
    let (mut accs, mut data, pool, mining) = plain(tag);
    if (tag == 3 || tag == 4 || tag == 6) && choose(2) == 1 {
        // delegated to somebody else
        let (d, b) = mining_pda(&k(3), &k(1));
        // a bump of zero is the last of 256 tries
        assume(b != 0);
        let delegate = new_mining(d, &k(1), &k(3), b);
        stake(&delegate);
        accs[3] = delegate;
        data = match tag {
            3 => i_deposit(N, 3, &k(2), &k(3)),
            4 => i_withdraw(N, &k(2), &k(3)),
            _ => i_extend(1, 4, 0, N, N, &k(2), &k(3)),
        };
    }
    let places: Vec<usize> = (0..accs.len()).filter(|i| *accs[*i].owner == pid()).collect();
    let i = places[choose(places.len() as u32) as usize];
    let u = wm(&mining).mining.owner;
    if accs[i].data_len() == mining_len() {
        let posing = match choose(3) {
            0 => {
                // whoever sets a pool up chooses its roles and its mint
                let f = new_pool(k(33), &key("deposit_role"), &key("distribute_role"), &key("fill_role"), &key("mint"), 254);
                wp(&f).pool.distribution_ends_at = bits("ends", 38);
                wp(&f).pool.tokens_available_for_distribution = bits("avail", 60);
                f
            }
            1 => acct(*accs[i].key, pid(), mining_len(), false, true),
            _ => {
                let (x, b) = mining_pda(&u, &k(11));
                let m = new_mining(x, &k(11), &u, b);
                stake(&m);
                m
            }
        };
        // one key is one account
        let was = *accs[i].key;
        for a in accs.iter_mut() {
            if a.key == posing.key && *a.key == was {
                *a = posing.clone();
            }
        }
        accs[i] = posing;
        must(true);
        reach("participant");
        check(run(accs, &data).is_err(), "kind.participant");
    } else {
        let posing = match choose(3) {
            0 => mining,
            1 => acct(*pool.key, pid(), mining_len(), false, true),
            _ => acct(*pool.key, pid(), pool_len(), false, true),
        };
        accs[i] = posing;
        must(true);
        reach("pool");
        check(run(accs, &data).is_err(), "kind.pool");
    }
}
