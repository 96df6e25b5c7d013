//! Hash-consed bit-vector terms (width 1..=128) with eager simplification,
//! unsigned interval bounds and concrete evaluation.
use std::collections::{BTreeMap, HashMap};

pub type T = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum K {
    Const(u128),
    Var(u32),
    Lin(u128, Box<[(u128, T)]>),
    Mul(T, T),
    UDiv(T, T),
    URem(T, T),
    And(T, T),
    Or(T, T),
    Xor(T, T),
    Not(T), // width 1 only
    Shl(T, T),
    Lshr(T, T),
    Ashr(T, T),
    Eq(T, T),
    Ult(T, T),
    Slt(T, T),
    Ite(T, T, T),
    Zext(T),
    Sext(T),
    Extract(T, u32), // low bit
    Concat(T, T),    // hi, lo
    UMulOvf(T, T),
}

pub struct Node {
    pub k: K,
    pub w: u32,
    pub lo: u128,
    pub hi: u128,
    /// For Lin: integer value of the linear form equals the bit-vector value (no wrap-around).
    pub exact: bool,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct U256 {
    pub h: u128,
    pub l: u128,
}
impl U256 {
    pub const ZERO: U256 = U256 { h: 0, l: 0 };
    pub fn from(x: u128) -> U256 {
        U256 { h: 0, l: x }
    }
    pub fn mul(a: u128, b: u128) -> U256 {
        let m = u64::MAX as u128;
        let (a0, a1) = (a & m, a >> 64);
        let (b0, b1) = (b & m, b >> 64);
        let p00 = a0 * b0;
        let p01 = a0 * b1;
        let p10 = a1 * b0;
        let p11 = a1 * b1;
        let mid = (p00 >> 64) + (p01 & m) + (p10 & m);
        let l = (p00 & m) | (mid << 64);
        let h = p11 + (p01 >> 64) + (p10 >> 64) + (mid >> 64);
        U256 { h, l }
    }
    pub fn add(self, o: U256) -> Option<U256> {
        let (l, c) = self.l.overflowing_add(o.l);
        let h = self.h.checked_add(o.h)?.checked_add(c as u128)?;
        Some(U256 { h, l })
    }
    pub fn ge(self, o: U256) -> bool {
        (self.h, self.l) >= (o.h, o.l)
    }
    pub fn sub(self, o: U256) -> U256 {
        let (l, b) = self.l.overflowing_sub(o.l);
        U256 { h: self.h.wrapping_sub(o.h).wrapping_sub(b as u128), l }
    }
}

fn gcd(a: u128, b: u128) -> u128 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

/// Signed view of a coefficient mod 2^w: (negative?, magnitude)
fn sg(c: u128, w: u32) -> (bool, u128) {
    if w > 1 && (c >> (w - 1)) & 1 == 1 {
        (true, (!c).wrapping_add(1) & mask(w))
    } else {
        (false, c)
    }
}

pub struct Terms {
    pub n: Vec<Node>,
    map: HashMap<(K, u32), T>,
    pub vars: Vec<(String, u32, T)>,
    pub tt: T,
    pub ff: T,
}

type Model = Vec<Option<u128>>;

impl Terms {
    pub fn new() -> Terms {
        let mut t = Terms { n: vec![], map: HashMap::new(), vars: vec![], tt: 0, ff: 0 };
        // index 0 reserved so that 0 never denotes a real term (memory overlay uses 0 = concrete)
        t.n.push(Node { k: K::Const(0), w: 1, lo: 0, hi: 0, exact: true });
        t.ff = t.konst(1, 0);
        t.tt = t.konst(1, 1);
        t
    }
    pub fn w(&self, t: T) -> u32 {
        self.n[t as usize].w
    }
    pub fn k(&self, t: T) -> &K {
        &self.n[t as usize].k
    }
    pub fn lo(&self, t: T) -> u128 {
        self.n[t as usize].lo
    }
    pub fn hi(&self, t: T) -> u128 {
        self.n[t as usize].hi
    }
    pub fn cv(&self, t: T) -> Option<u128> {
        match self.n[t as usize].k {
            K::Const(c) => Some(c),
            _ => None,
        }
    }
    fn mk(&mut self, k: K, w: u32, lo: u128, hi: u128, exact: bool) -> T {
        debug_assert!(w >= 1 && w <= 128);
        if lo == hi {
            if !matches!(k, K::Const(_)) {
                return self.konst(w, lo);
            }
        }
        let key = (k, w);
        if let Some(&t) = self.map.get(&key) {
            return t;
        }
        let t = self.n.len() as T;
        self.n.push(Node { k: key.0.clone(), w, lo, hi, exact });
        self.map.insert(key, t);
        t
    }
    pub fn konst(&mut self, w: u32, c: u128) -> T {
        let c = c & mask(w);
        self.mk(K::Const(c), w, c, c, true)
    }
    pub fn boolean(&self, b: bool) -> T {
        if b {
            self.tt
        } else {
            self.ff
        }
    }
    pub fn var(&mut self, name: &str, w: u32) -> T {
        let id = self.vars.len() as u32;
        let t = self.mk(K::Var(id), w, 0, mask(w), true);
        self.vars.push((name.to_string(), w, t));
        t
    }
    /// linear view: (const, terms)
    fn lin_of(&self, t: T) -> (u128, Vec<(u128, T)>) {
        match &self.n[t as usize].k {
            K::Const(c) => (*c, vec![]),
            K::Lin(c, ts) => (*c, ts.to_vec()),
            _ => (0, vec![(1, t)]),
        }
    }
    fn lin_interval(&self, w: u32, c: u128, ts: &[(u128, T)]) -> Option<(u128, u128)> {
        // integer bounds with signed interpretation of coefficients; None if it may leave [0,2^w)
        let (mut pl, mut ph, mut nl, mut nh) = (U256::ZERO, U256::ZERO, U256::ZERO, U256::ZERO);
        let (cn, cm) = sg(c, w);
        // constants: positive interpretation first, negative alternative second
        for (co, t) in ts {
            let (neg, m) = sg(*co, w);
            let (l, h) = (U256::mul(m, self.lo(*t)), U256::mul(m, self.hi(*t)));
            if neg {
                nl = nl.add(l)?;
                nh = nh.add(h)?;
            } else {
                pl = pl.add(l)?;
                ph = ph.add(h)?;
            }
        }
        let top = if w == 128 { U256 { h: 1, l: 0 } } else { U256::from(1u128 << w) };
        let try_c = |neg: bool, m: u128| -> Option<(u128, u128)> {
            let (mut pl, mut ph, mut nl, mut nh) = (pl, ph, nl, nh);
            if neg {
                nl = nl.add(U256::from(m))?;
                nh = nh.add(U256::from(m))?;
            } else {
                pl = pl.add(U256::from(m))?;
                ph = ph.add(U256::from(m))?;
            }
            if !pl.ge(nh) || !ph.ge(nl) {
                return None;
            }
            let lo = pl.sub(nh);
            let hi = ph.sub(nl);
            if hi.ge(top) {
                return None;
            }
            Some((lo.l, hi.l))
        };
        if let Some(r) = try_c(false, c) {
            return Some(r);
        }
        if cn {
            return try_c(true, cm);
        }
        None
    }
    /// True when (c, ts) as an integer form with the constant taken as `c` unsigned or signed stays in range;
    /// returns the signed constant used.
    fn mk_lin(&mut self, w: u32, c: u128, mut ts: Vec<(u128, T)>) -> T {
        let m = mask(w);
        let c = c & m;
        ts.retain(|(co, _)| co & m != 0);
        for x in ts.iter_mut() {
            x.0 &= m;
        }
        if ts.is_empty() {
            return self.konst(w, c);
        }
        if c == 0 && ts.len() == 1 && ts[0].0 == 1 {
            return ts[0].1;
        }
        ts.sort_by_key(|x| x.1);
        let r = self.lin_interval(w, c, &ts);
        let (lo, hi, ex) = match r {
            Some((l, h)) => (l, h, true),
            None => (0, m, false),
        };
        self.mk(K::Lin(c, ts.into_boxed_slice()), w, lo, hi, ex)
    }
    fn lin_comb(&mut self, w: u32, parts: &[(u128, T)], c0: u128) -> T {
        let m = mask(w);
        let mut c = c0 & m;
        let mut acc: BTreeMap<T, u128> = BTreeMap::new();
        for &(co, t) in parts {
            let (tc, ts) = self.lin_of(t);
            c = c.wrapping_add(co.wrapping_mul(tc)) & m;
            for (k, x) in ts {
                let e = acc.entry(x).or_insert(0);
                *e = e.wrapping_add(co.wrapping_mul(k)) & m;
            }
        }
        let ts: Vec<(u128, T)> = acc.into_iter().filter(|(_, k)| *k != 0).map(|(x, k)| (k, x)).collect();
        if ts.len() > 1 {
            if let Some(r) = self.rejoin(w, &ts) {
                return self.lin_comb(w, &r, c);
            }
        }
        self.mk_lin(w, c, ts)
    }
    /// slices of one value that are being put together again: k*2^n*x[n+..] + k*x[..n]
    fn rejoin(&mut self, w: u32, ts: &[(u128, T)]) -> Option<Vec<(u128, T)>> {
        let m = mask(w);
        let sl: Vec<Option<(T, u32, u32)>> = ts
            .iter()
            .map(|(_, t)| {
                let y = if let K::Zext(z) = *self.k(*t) { z } else { *t };
                if let K::Extract(x, lo) = *self.k(y) { Some((x, lo, self.w(y))) } else { None }
            })
            .collect();
        for i in 0..ts.len() {
            if let Some((x, lo, wi)) = sl[i] {
                for j in 0..ts.len() {
                    if let Some((y, lo2, wj)) = sl[j] {
                        if i != j && x == y && lo == lo2 + wj && wj < w && wi + wj <= w && ts[i].0 == (ts[j].0 << wj) & m {
                            let e = self.extract(x, lo2, wi + wj);
                            let e = self.zext(e, w);
                            let mut r = vec![(ts[j].0, e)];
                            for (k, t) in ts.iter().enumerate() {
                                if k != i && k != j {
                                    r.push(*t);
                                }
                            }
                            return Some(r);
                        }
                    }
                }
            }
        }
        None
    }
    pub fn add(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if w == 1 {
            return self.xor(a, b);
        }
        self.lin_comb(w, &[(1, a), (1, b)], 0)
    }
    pub fn sub(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if w == 1 {
            return self.xor(a, b);
        }
        self.lin_comb(w, &[(1, a), (mask(w), b)], 0)
    }
    pub fn mulc(&mut self, a: T, c: u128) -> T {
        let w = self.w(a);
        self.lin_comb(w, &[(c, a)], 0)
    }
    pub fn mul(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if w == 1 {
            return self.and(a, b);
        }
        if let Some(c) = self.cv(a) {
            return self.mulc(b, c);
        }
        if let Some(c) = self.cv(b) {
            return self.mulc(a, c);
        }
        // pull scalar from single-term linear forms
        let (mut s, mut x, mut y) = (1u128, a, b);
        if let K::Lin(0, ts) = self.k(x) {
            if ts.len() == 1 {
                s = s.wrapping_mul(ts[0].0);
                x = ts[0].1;
            }
        }
        if let K::Lin(0, ts) = self.k(y) {
            if ts.len() == 1 {
                s = s.wrapping_mul(ts[0].0);
                y = ts[0].1;
            }
        }
        // boolean factor: zext(bool) * y  => ite
        for (p, q) in [(x, y), (y, x)] {
            if let K::Zext(z) = *self.k(p) {
                if self.w(z) == 1 {
                    let zero = self.konst(w, 0);
                    let r = self.ite(z, q, zero);
                    return self.mulc(r, s);
                }
            }
        }
        if x > y {
            std::mem::swap(&mut x, &mut y);
        }
        let h = U256::mul(self.hi(x), self.hi(y));
        let (lo, hi, ex) = if h.h == 0 && h.l <= mask(w) {
            (self.lo(x).wrapping_mul(self.lo(y)), h.l, true)
        } else {
            (0, mask(w), false)
        };
        let m = self.mk(K::Mul(x, y), w, lo, hi, ex);
        self.mulc(m, s)
    }
    pub fn umul_ovf(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        let h = U256::mul(self.hi(a), self.hi(b));
        if h.h == 0 && h.l <= mask(w) {
            return self.ff;
        }
        let l = U256::mul(self.lo(a), self.lo(b));
        if l.h != 0 || l.l > mask(w) {
            return self.tt;
        }
        for (p, q) in [(a, b), (b, a)] {
            if let Some(c) = self.cv(p) {
                if c == 0 {
                    return self.ff;
                }
                // q*c overflows iff q > MAX/c
                let lim = self.konst(w, mask(w) / c);
                return self.ult(lim, q);
            }
        }
        let (x, y) = if a < b { (a, b) } else { (b, a) };
        self.mk(K::UMulOvf(x, y), 1, 0, 1, true)
    }
    pub fn uadd_ovf(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        let (x, y) = if a < b { (a, b) } else { (b, a) };
        if let (Some(h), true) = (self.hi(x).checked_add(self.hi(y)), true) {
            if h <= mask(w) {
                return self.ff;
            }
        }
        match self.lo(x).checked_add(self.lo(y)) {
            Some(l) if l <= mask(w) => {}
            _ => return self.tt,
        }
        let mx = self.konst(w, mask(w));
        let nx = self.sub(mx, x);
        self.ult(nx, y)
    }
    /// Unsigned division. A division instruction is only reached on paths where the divisor is
    /// non-zero (Rust checks, and LLVM makes zero undefined), so the value at divisor zero is "don't care":
    /// every rewrite and interval below assumes a non-zero divisor.
    pub fn udiv(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(c) = self.cv(b) {
            if c == 1 {
                return a;
            }
            if c == 0 {
                return self.konst(w, mask(w));
            }
            if let Some(x) = self.cv(a) {
                return self.konst(w, x / c);
            }
            if self.hi(a) < c {
                return self.konst(w, 0);
            }
            match self.k(a).clone() {
                K::Lin(k, ts) if self.n[a as usize].exact => {
                    if let Some((q, r)) = self.split_lin(w, k, &ts, c) {
                        let rq = self.udiv_raw(r, b);
                        return self.add(q, rq);
                    }
                }
                K::UDiv(x, y) => {
                    if let Some(c2) = self.cv(y) {
                        if let Some(p) = c.checked_mul(c2) {
                            if p <= mask(w) {
                                let kp = self.konst(w, p);
                                return self.udiv(x, kp);
                            }
                        }
                    } else {
                        // floor(floor(x/y)/c) = floor(floor(x/c)/y) for y != 0 (see note on division by zero)
                        let xc = self.udiv(x, b);
                        return self.udiv(xc, y);
                    }
                }
                _ => {}
            }
            return self.udiv_raw(a, b);
        }
        if a == b && self.lo(b) > 0 {
            return self.konst(w, 1);
        }
        if self.cv(a) == Some(0) && self.lo(b) > 0 {
            return a;
        }
        if self.hi(a) < self.lo(b) {
            return self.konst(w, 0);
        }
        self.udiv_raw(a, b)
    }
    fn udiv_raw(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(c) = self.cv(b) {
            if c != 0 {
                if let Some(x) = self.cv(a) {
                    return self.konst(w, x / c);
                }
                let (lo, hi) = (self.lo(a) / c, self.hi(a) / c);
                // reduce common factor
                if let K::Lin(k, ts) = self.k(a).clone() {
                    if self.n[a as usize].exact {
                        let mut g = gcd(c, 0);
                        for (co, _) in ts.iter() {
                            g = gcd(g, sg(*co, w).1);
                        }
                        // const floors: (g*X + k)/ (g*c') = (X + floor(k/g)) / c'   (k >= 0 view)
                        if g > 1 {
                            let (kn, km) = sg(k, w);
                            let kk = if self.lin_interval_c(w, false, k, &ts) {
                                Some(k / g)
                            } else if kn && km % g == 0 {
                                Some((!(km / g)).wrapping_add(1) & mask(w))
                            } else {
                                None
                            };
                            if let Some(kk) = kk {
                                let ts2: Vec<(u128, T)> = ts
                                    .iter()
                                    .map(|(co, t)| {
                                        let (n, m) = sg(*co, w);
                                        let q = m / g;
                                        (if n { (!q).wrapping_add(1) & mask(w) } else { q }, *t)
                                    })
                                    .collect();
                                let a2 = self.mk_lin(w, kk, ts2);
                                if self.cv(a2).is_some() || self.n[a2 as usize].exact {
                                    let b2 = self.konst(w, c / g);
                                    return self.udiv(a2, b2);
                                }
                            }
                        }
                    }
                }
                return self.mk(K::UDiv(a, b), w, lo, hi, true);
            }
        }
        let (lo, hi) = (self.lo(a) / self.hi(b).max(1), self.hi(a) / self.lo(b).max(1));
        self.mk(K::UDiv(a, b), w, lo, hi, true)
    }
    pub fn lin_fits(&self, w: u32, c: u128, ts: &[(u128, T)]) -> bool {
        self.lin_interval_c(w, false, c, ts)
    }
    fn lin_interval_c(&self, w: u32, _neg: bool, c: u128, ts: &[(u128, T)]) -> bool {
        // is the form in range with the constant taken as unsigned?
        let (mut pl, mut ph, mut nl, mut nh) = (U256::from(c), U256::from(c), U256::ZERO, U256::ZERO);
        for (co, t) in ts {
            let (neg, m) = sg(*co, w);
            let (l, h) = (U256::mul(m, self.lo(*t)), U256::mul(m, self.hi(*t)));
            let r = if neg {
                (nl.add(l), nh.add(h))
            } else {
                (pl.add(l), ph.add(h))
            };
            match r {
                (Some(l), Some(h)) => {
                    if neg {
                        nl = l;
                        nh = h;
                    } else {
                        pl = l;
                        ph = h;
                    }
                }
                _ => return false,
            }
        }
        let top = if w == 128 { U256 { h: 1, l: 0 } } else { U256::from(1u128 << w) };
        pl.ge(nh) && ph.ge(nl) && !ph.sub(nl).ge(top)
    }
    /// Split exact lin = c*q + r with r exact and non-negative (and simpler). None when nothing splits off.
    fn split_lin(&mut self, w: u32, k: u128, ts: &[(u128, T)], c: u128) -> Option<(T, T)> {
        if c > mask(w) >> 1 {
            return None;
        }
        let mut qs = vec![];
        let mut rs = vec![];
        for (co, t) in ts {
            let (n, m) = sg(*co, w);
            if n {
                if m % c == 0 {
                    qs.push(((!(m / c)).wrapping_add(1) & mask(w), *t));
                } else {
                    rs.push((*co, *t));
                }
            } else {
                if m / c != 0 {
                    qs.push((m / c, *t));
                }
                if m % c != 0 {
                    rs.push((m % c, *t));
                }
            }
        }
        let unsigned_k = self.lin_interval_c(w, false, k, ts);
        let (qk, rk);
        if unsigned_k {
            qk = k / c;
            rk = k % c;
        } else {
            let (_, km) = sg(k, w);
            // k = -km ; k = c*(-ceil(km/c)) + (ceil*c - km)
            let ce = (km + c - 1) / c;
            qk = (!ce).wrapping_add(1) & mask(w);
            rk = ce * c - km;
        }
        if qs.is_empty() && qk == 0 {
            return None;
        }
        let r = self.mk_lin(w, rk, rs);
        if self.cv(r).is_none() && !self.n[r as usize].exact {
            return None;
        }
        let q = self.mk_lin(w, qk, qs);
        if self.cv(q).is_none() && !self.n[q as usize].exact {
            // quotient must itself be a non-wrapping integer; q = (lin - r)/c is fine as mod value because
            // floor(lin/c) = q_int + floor(r/c) and q_int may be negative only if r >= c; accept mod arithmetic.
        }
        Some((q, r))
    }
    pub fn urem(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(c) = self.cv(b) {
            if c == 1 {
                return self.konst(w, 0);
            }
            if c != 0 {
                if let Some(x) = self.cv(a) {
                    return self.konst(w, x % c);
                }
                if self.hi(a) < c {
                    return a;
                }
                if let K::Lin(k, ts) = self.k(a).clone() {
                    if self.n[a as usize].exact {
                        if let Some((_q, r)) = self.split_lin(w, k, &ts, c) {
                            return self.urem(r, b);
                        }
                    }
                }
                return self.mk(K::URem(a, b), w, 0, c - 1, true);
            }
        }
        let hi = (self.hi(b).max(1) - 1).min(self.hi(a));
        self.mk(K::URem(a, b), w, 0, hi, true)
    }
    pub fn not(&mut self, a: T) -> T {
        let w = self.w(a);
        if w == 1 {
            if a == self.tt {
                return self.ff;
            }
            if a == self.ff {
                return self.tt;
            }
            if let K::Not(x) = *self.k(a) {
                return x;
            }
            return self.mk(K::Not(a), 1, 0, 1, true);
        }
        let m = self.konst(w, mask(w));
        self.sub(m, a)
    }
    pub fn and(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b {
            return a;
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        for (p, q) in [(a, b), (b, a)] {
            if let Some(c) = self.cv(p) {
                if let Some(d) = self.cv(q) {
                    return self.konst(w, c & d);
                }
                if c == 0 {
                    return p;
                }
                if c == mask(w) {
                    return q;
                }
                // low mask
                if c & c.wrapping_add(1) == 0 {
                    if self.hi(q) <= c {
                        return q;
                    }
                    let k = 128 - c.leading_zeros();
                    let e = self.extract(q, 0, k);
                    return self.zext(e, w);
                }
                // clear low bits: ~(2^k - 1)
                let inv = !c & mask(w);
                if inv & inv.wrapping_add(1) == 0 {
                    let k = 128 - inv.leading_zeros();
                    let e = self.extract(q, 0, k);
                    let z = self.zext(e, w);
                    return self.sub(q, z);
                }
            }
        }
        if w == 1 {
            let (na, nb) = (self.not(a), self.not(b));
            if na == b || nb == a {
                return self.ff;
            }
        }
        let hi = self.hi(a).min(self.hi(b));
        self.mk(K::And(a, b), w, 0, hi, true)
    }
    pub fn or(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b {
            return a;
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        for (p, q) in [(a, b), (b, a)] {
            if let Some(c) = self.cv(p) {
                if let Some(d) = self.cv(q) {
                    return self.konst(w, c | d);
                }
                if c == 0 {
                    return q;
                }
                if c == mask(w) {
                    return p;
                }
            }
        }
        if w == 1 {
            let na = self.not(a);
            if na == b {
                return self.tt;
            }
            // or(a, b) = not(and(not a, not b)) keeps a single canonical shape
            let nb = self.not(b);
            let x = self.and(na, nb);
            return self.not(x);
        }
        // disjoint bits -> add (typical shl/or concatenations)
        if self.disjoint(a, b) {
            return self.add(a, b);
        }
        let hb = 128 - (self.hi(a) | self.hi(b)).leading_zeros();
        let hi = if hb >= 128 { u128::MAX } else { (1u128 << hb) - 1 };
        let lo = self.lo(a).max(self.lo(b));
        self.mk(K::Or(a, b), w, lo, hi & mask(w), true)
    }
    fn tz(&self, t: T) -> u32 {
        // known trailing zero bits
        match self.k(t) {
            K::Const(c) => {
                if *c == 0 {
                    128
                } else {
                    c.trailing_zeros()
                }
            }
            K::Lin(c, ts) => {
                let mut z = if *c == 0 { 128 } else { c.trailing_zeros() };
                for (co, x) in ts.iter() {
                    z = z.min((co.trailing_zeros() + self.tz(*x)).min(128));
                }
                z
            }
            K::Concat(_, l) => {
                let z = self.tz(*l);
                z.min(self.w(*l))
            }
            K::Zext(x) => self.tz(*x),
            _ => 0,
        }
    }
    fn disjoint(&self, a: T, b: T) -> bool {
        let bits = |x: u128| 128 - x.leading_zeros();
        bits(self.hi(a)) <= self.tz(b) || bits(self.hi(b)) <= self.tz(a)
    }
    pub fn xor(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b {
            return self.konst(w, 0);
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        for (p, q) in [(a, b), (b, a)] {
            if let Some(c) = self.cv(p) {
                if let Some(d) = self.cv(q) {
                    return self.konst(w, c ^ d);
                }
                if c == 0 {
                    return q;
                }
                if c == mask(w) {
                    return self.not(q);
                }
            }
        }
        if w == 1 {
            // pull negations out
            if let K::Not(x) = *self.k(a) {
                let r = self.xor(x, b);
                return self.not(r);
            }
            if let K::Not(x) = *self.k(b) {
                let r = self.xor(a, x);
                return self.not(r);
            }
        } else if self.disjoint(a, b) {
            return self.add(a, b);
        }
        self.mk(K::Xor(a, b), w, 0, mask(w), true)
    }
    pub fn shl(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(s) = self.cv(b) {
            if s >= w as u128 {
                return self.konst(w, 0);
            }
            return self.mulc(a, 1u128 << s);
        }
        self.mk(K::Shl(a, b), w, 0, mask(w), true)
    }
    pub fn lshr(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(s) = self.cv(b) {
            if s == 0 {
                return a;
            }
            if s >= w as u128 {
                return self.konst(w, 0);
            }
            let e = self.extract(a, s as u32, w - s as u32);
            return self.zext(e, w);
        }
        let hi = self.hi(a);
        self.mk(K::Lshr(a, b), w, 0, hi, true)
    }
    pub fn ashr(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(s) = self.cv(b) {
            if s == 0 {
                return a;
            }
            let s = s.min(w as u128 - 1) as u32;
            let e = self.extract(a, s, w - s);
            return self.sext(e, w);
        }
        self.mk(K::Ashr(a, b), w, 0, mask(w), true)
    }
    pub fn zext(&mut self, a: T, w: u32) -> T {
        let aw = self.w(a);
        if w == aw {
            return a;
        }
        if let Some(c) = self.cv(a) {
            return self.konst(w, c);
        }
        match self.k(a).clone() {
            K::Zext(x) => return self.zext(x, w),
            K::Lin(c, ts) if self.n[a as usize].exact => {
                // re-express with sign-extended coefficients
                let uns = self.lin_interval_c(aw, false, c, &ts);
                let ext = |v: u128| -> u128 {
                    let (n, m) = sg(v, aw);
                    if n {
                        (!m).wrapping_add(1) & mask(w)
                    } else {
                        m
                    }
                };
                let c2 = if uns { c } else { ext(c) };
                let parts: Vec<(u128, T)> = ts.iter().map(|(co, t)| (ext(*co), *t)).collect();
                let mut p2 = vec![];
                for (co, t) in parts {
                    let z = self.zext(t, w);
                    p2.push((co, z));
                }
                return self.lin_comb(w, &p2, c2);
            }
            K::Ite(c, x, y) if self.cv(x).is_some() && self.cv(y).is_some() => {
                let (x2, y2) = (self.zext(x, w), self.zext(y, w));
                return self.ite(c, x2, y2);
            }
            K::Extract(x, 0) if self.hi(x) <= mask(aw) => {
                let xw = self.w(x);
                return if w == xw {
                    x
                } else if w < xw {
                    self.extract(x, 0, w)
                } else {
                    self.zext(x, w)
                };
            }
            K::UDiv(x, y) => {
                let (x2, y2) = (self.zext(x, w), self.zext(y, w));
                return self.udiv(x2, y2);
            }
            K::URem(x, y) => {
                let (x2, y2) = (self.zext(x, w), self.zext(y, w));
                return self.urem(x2, y2);
            }
            K::Mul(x, y) if self.n[a as usize].exact => {
                let (x2, y2) = (self.zext(x, w), self.zext(y, w));
                return self.mul(x2, y2);
            }
            _ => {}
        }
        let (lo, hi) = (self.lo(a), self.hi(a));
        self.mk(K::Zext(a), w, lo, hi, true)
    }
    pub fn sext(&mut self, a: T, w: u32) -> T {
        let aw = self.w(a);
        if w == aw {
            return a;
        }
        if let Some(c) = self.cv(a) {
            let (n, m) = sg(c, aw);
            let n = n || (aw == 1 && c == 1);
            let m = if aw == 1 { c } else { m };
            return self.konst(w, if n { (!m).wrapping_add(1) } else { m });
        }
        if aw > 1 && self.hi(a) < (1u128 << (aw - 1)) {
            return self.zext(a, w);
        }
        if aw == 1 {
            let o = self.konst(w, mask(w));
            let z = self.konst(w, 0);
            return self.ite(a, o, z);
        }
        self.mk(K::Sext(a), w, 0, mask(w), true)
    }
    pub fn trunc(&mut self, a: T, w: u32) -> T {
        self.extract(a, 0, w)
    }
    pub fn extract(&mut self, a: T, lo: u32, w: u32) -> T {
        let aw = self.w(a);
        if lo == 0 && w == aw {
            return a;
        }
        if let Some(c) = self.cv(a) {
            return self.konst(w, c >> lo);
        }
        if lo > 0 && lo < 128 && self.hi(a) >> lo == 0 {
            return self.konst(w, 0);
        }
        match self.k(a).clone() {
            K::Extract(x, l2) => return self.extract(x, l2 + lo, w),
            K::Zext(x) => {
                let xw = self.w(x);
                if lo >= xw {
                    return self.konst(w, 0);
                }
                if lo + w <= xw {
                    return self.extract(x, lo, w);
                }
                let e = self.extract(x, lo, xw - lo);
                return self.zext(e, w);
            }
            K::Concat(h, l) => {
                let lw = self.w(l);
                if lo >= lw {
                    return self.extract(h, lo - lw, w);
                }
                if lo + w <= lw {
                    return self.extract(l, lo, w);
                }
                let lp = self.extract(l, lo, lw - lo);
                let hp = self.extract(h, 0, w - (lw - lo));
                return self.concat(hp, lp);
            }
            K::Lin(c, ts) if lo == 0 => {
                if w > 1 {
                    let mut parts = vec![];
                    for (co, t) in ts.iter() {
                        let e = self.extract(*t, 0, w);
                        parts.push((*co & mask(w), e));
                    }
                    // truncation distributes over the sum only where it disappears; otherwise halves of one
                    // value could not be recognised when they are put together again
                    if parts.iter().all(|(_, e)| !matches!(self.k(*e), K::Extract(..))) {
                        return self.lin_comb(w, &parts, c);
                    }
                }
            }
            K::Lin(c, ts) if lo > 0 && self.n[a as usize].exact && c >> lo << lo == c => {
                // all coefficients multiples of 2^lo: shift them
                if ts.iter().all(|(co, _)| {
                    let (n, m) = sg(*co, aw);
                    !n && m >> lo << lo == m
                }) && self.lin_interval_c(aw, false, c, &ts)
                {
                    let parts: Vec<(u128, T)> = ts.iter().map(|(co, t)| (*co >> lo, *t)).collect();
                    let s = self.lin_comb(aw, &parts, c >> lo);
                    return self.extract(s, 0, w);
                }
            }
            K::Ite(c, x, y) => {
                if self.cv(x).is_some() || self.cv(y).is_some() {
                    let (x2, y2) = (self.extract(x, lo, w), self.extract(y, lo, w));
                    return self.ite(c, x2, y2);
                }
            }
            K::And(x, y) | K::Or(x, y) | K::Xor(x, y) if self.cv(x).is_some() || self.cv(y).is_some() => {
                let op = self.k(a).clone();
                let (x2, y2) = (self.extract(x, lo, w), self.extract(y, lo, w));
                return match op {
                    K::And(..) => self.and(x2, y2),
                    K::Or(..) => self.or(x2, y2),
                    _ => self.xor(x2, y2),
                };
            }
            _ => {}
        }
        let (l, h) = if lo == 0 && self.hi(a) <= mask(w) { (self.lo(a), self.hi(a)) } else { (0, mask(w)) };
        let h = if lo > 0 && lo < 128 { h.min(self.hi(a) >> lo) } else { h };
        self.mk(K::Extract(a, lo), w, l, h, true)
    }
    pub fn concat(&mut self, h: T, l: T) -> T {
        let (hw, lw) = (self.w(h), self.w(l));
        let w = hw + lw;
        if let (Some(a), Some(b)) = (self.cv(h), self.cv(l)) {
            return self.konst(w, (a << lw) | b);
        }
        if self.cv(h) == Some(0) {
            return self.zext(l, w);
        }
        if self.cv(l) == Some(0) {
            let z = self.zext(h, w);
            return self.mulc(z, 1u128 << lw);
        }
        if let (K::Extract(x, xl), K::Extract(y, yl)) = (self.k(h).clone(), self.k(l).clone()) {
            if x == y && xl == yl + lw {
                return self.extract(x, yl, w);
            }
        }
        // extract(x) ++ (extract(x) ++ rest)
        if let K::Concat(l1, l2) = self.k(l).clone() {
            if let (K::Extract(x, xl), K::Extract(y, yl)) = (self.k(h).clone(), self.k(l1).clone()) {
                if x == y && xl == yl + self.w(l1) {
                    let n = self.extract(x, yl, hw + self.w(l1));
                    return self.concat(n, l2);
                }
            }
        }
        // narrow source: high part zero-extends the low var: concat(zext(extract(x,k..)), extract(x,0,k))
        if let (K::Zext(z), K::Extract(y, yl)) = (self.k(h).clone(), self.k(l).clone()) {
            if let K::Extract(x, xl) = self.k(z).clone() {
                if x == y && xl == yl + lw {
                    let zw = self.w(z);
                    let n = self.extract(x, yl, lw + zw);
                    return self.zext(n, w);
                }
            }
        }
        let lo = (self.lo(h) << lw) | self.lo(l);
        let hi = (self.hi(h) << lw) | self.hi(l).max(if self.lo(h) != self.hi(h) { mask(lw) } else { 0 });
        self.mk(K::Concat(h, l), w, lo, hi, true)
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if c == self.tt {
            return a;
        }
        if c == self.ff || a == b {
            return b;
        }
        let w = self.w(a);
        if let K::Not(x) = *self.k(c) {
            return self.ite(x, b, a);
        }
        if w == 1 {
            match (self.cv(a), self.cv(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let nc = self.not(c);
                    return self.and(nc, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let nc = self.not(c);
                    return self.or(nc, a);
                }
                _ => {}
            }
        } else if let (Some(1), Some(0)) = (self.cv(a), self.cv(b)) {
            return self.zext(c, w);
        } else if let (Some(0), Some(1)) = (self.cv(a), self.cv(b)) {
            let nc = self.not(c);
            return self.zext(nc, w);
        }
        if let K::Ite(c2, x, _) = *self.k(a) {
            if c2 == c {
                return self.ite(c, x, b);
            }
        }
        if let K::Ite(c2, _, y) = *self.k(b) {
            if c2 == c {
                return self.ite(c, a, y);
            }
        }
        // min/max recognition tightens the interval
        let mut lo = self.lo(a).min(self.lo(b));
        let mut hi = self.hi(a).max(self.hi(b));
        if let K::Ult(x, y) = *self.k(c) {
            if x == a && y == b {
                // min(a,b)
                hi = self.hi(a).min(self.hi(b));
            } else if x == b && y == a {
                // max(a,b)
                lo = self.lo(a).max(self.lo(b));
            }
            // saturating subtraction: ite(x<y, 0, x-y)
            if self.cv(a) == Some(0) && w > 1 {
                let d = self.sub(x, y);
                if d == b {
                    hi = self.hi(x);
                }
            }
            // ite(y<x ... handled by the Not canonicalisation)
            if self.cv(b) == Some(0) && w > 1 {
                let d = self.sub(y, x);
                if d == a {
                    hi = self.hi(y);
                }
            }
        }
        self.mk(K::Ite(c, a, b), w, lo, hi, true)
    }
    pub fn eq(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.tt;
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if self.hi(a) < self.lo(b) || self.hi(b) < self.lo(a) {
            return self.ff;
        }
        if w == 1 {
            let x = self.xor(a, b);
            return self.not(x);
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        for (p, q) in [(a, b), (b, a)] {
            if let Some(c) = self.cv(p) {
                match self.k(q).clone() {
                    K::Zext(x) => {
                        let xw = self.w(x);
                        if c > mask(xw) {
                            return self.ff;
                        }
                        if xw == 1 {
                            return if c == 1 { x } else { self.not(x) };
                        }
                        let k = self.konst(xw, c);
                        return self.eq(x, k);
                    }
                    K::Ite(cc, x, y) if self.cv(x).is_some() || self.cv(y).is_some() => {
                        let (e1, e2) = (self.eq(x, p), self.eq(y, p));
                        return self.ite(cc, e1, e2);
                    }
                    K::Concat(h, l) => {
                        let lw = self.w(l);
                        let hw = self.w(h);
                        let (kh, kl) = (self.konst(hw, c >> lw), self.konst(lw, c));
                        let (e1, e2) = (self.eq(h, kh), self.eq(l, kl));
                        return self.and(e1, e2);
                    }
                    _ => {}
                }
            }
        }
        if let (K::Zext(x), K::Zext(y)) = (self.k(a).clone(), self.k(b).clone()) {
            let (xw, yw) = (self.w(x), self.w(y));
            let m = xw.max(yw);
            if m < w {
                let (x2, y2) = (self.zext(x, m), self.zext(y, m));
                return self.eq(x2, y2);
            }
        }
        if let (K::Concat(h1, l1), K::Concat(h2, l2)) = (self.k(a).clone(), self.k(b).clone()) {
            if self.w(l1) == self.w(l2) {
                let (e1, e2) = (self.eq(h1, h2), self.eq(l1, l2));
                return self.and(e1, e2);
            }
        }
        // linear normalisation
        let la = matches!(self.k(a), K::Lin(..));
        let lb = matches!(self.k(b), K::Lin(..));
        if la || lb {
            let (ea, eb) = (self.n[a as usize].exact, self.n[b as usize].exact);
            if ea && eb {
                if let Some(r) = self.cmp_norm(a, b, true) {
                    return r;
                }
            } else {
                // a - b == 0 (mod 2^w): orient canonically as  lin == const or atom == rest
                let d = self.sub(a, b);
                match self.k(d).clone() {
                    K::Const(c) => return self.boolean(c == 0),
                    K::Lin(c, ts) => {
                        // isolate const: ts == -c ; make the first coefficient "positive"
                        let mut ts = ts.to_vec();
                        let mut c = (!c).wrapping_add(1) & mask(w);
                        if sg(ts[0].0, w).0 {
                            for x in ts.iter_mut() {
                                x.0 = (!x.0).wrapping_add(1) & mask(w);
                            }
                            c = (!c).wrapping_add(1) & mask(w);
                        }
                        // split off the first positive atom if coefficient is 1
                        let (pos, neg): (Vec<_>, Vec<_>) = ts.into_iter().partition(|x| !sg(x.0, w).0);
                        let neg: Vec<_> = neg.into_iter().map(|(k, t)| ((!k).wrapping_add(1) & mask(w), t)).collect();
                        let l = self.mk_lin(w, 0, pos);
                        let r = self.mk_lin(w, c, neg);
                        if l == r {
                            return self.tt;
                        }
                        let (l, r) = if l < r { (l, r) } else { (r, l) };
                        return self.mk(K::Eq(l, r), 1, 0, 1, true);
                    }
                    _ => {
                        let z = self.konst(w, 0);
                        if self.lo(d) > 0 {
                            return self.ff;
                        }
                        let (l, r) = if d < z { (d, z) } else { (z, d) };
                        return self.mk(K::Eq(l, r), 1, 0, 1, true);
                    }
                }
            }
        }
        self.mk(K::Eq(a, b), 1, 0, 1, true)
    }
    /// integer-normalise a<b or a==b for exact linear forms. None when it cannot be re-expressed without wrap.
    fn cmp_norm(&mut self, a: T, b: T, eq: bool) -> Option<T> {
        let w = self.w(a);
        // signed integer coefficients of b - a   (i128 magnitudes checked)
        let mut acc: BTreeMap<T, i128> = BTreeMap::new();
        let mut kc: i128 = 0;
        for (t, s) in [(a, -1i128), (b, 1i128)] {
            let (c, ts) = self.lin_of(t);
            let c_int: i128 = if ts.is_empty() || self.lin_interval_c(w, false, c, &ts) {
                i128::try_from(c).ok()?
            } else {
                let (_, m) = sg(c, w);
                -(i128::try_from(m).ok()?)
            };
            kc = kc.checked_add(c_int.checked_mul(s)?)?;
            for (k, x) in ts {
                let (n, m) = sg(k, w);
                let m = i128::try_from(m).ok()?;
                let v = if n { -m } else { m };
                let e = acc.entry(x).or_insert(0);
                *e = e.checked_add(v.checked_mul(s)?)?;
            }
        }
        acc.retain(|_, v| *v != 0);
        if acc.is_empty() {
            return Some(self.boolean(if eq { kc == 0 } else { kc > 0 }));
        }
        let mut g: u128 = 0;
        for v in acc.values() {
            g = gcd(g, v.unsigned_abs());
        }
        let g = g as i128;
        // diff = g*X + kc ; a<b  <=>  g*X > -kc  <=> X > floor(-kc/g) <=> X >= floor(-kc/g)+1 ; a==b <=> X == -kc/g
        let kk: i128;
        if eq {
            if kc % g != 0 {
                return Some(self.ff);
            }
            kk = kc / g; // X + kk == 0
        } else {
            // X > floor(-kc/g)  <=>  X - floor(-kc/g) > 0
            let fl = (-kc).div_euclid(g);
            kk = -fl;
        }
        let mut pos = vec![];
        let mut neg = vec![];
        for (t, v) in acc {
            let q = v / g;
            if q > 0 {
                pos.push((q as u128, t));
            } else {
                neg.push(((-q) as u128, t));
            }
        }
        let mut flip = false;
        if eq {
            // orientation: smallest term id on the left
            if pos.is_empty() || (!neg.is_empty() && neg[0].1 < pos[0].1) {
                flip = true;
            }
        }
        let (mut cp, mut cn) = if kk >= 0 { (kk as u128, 0) } else { (0, (-kk) as u128) };
        if flip {
            std::mem::swap(&mut pos, &mut neg);
            std::mem::swap(&mut cp, &mut cn);
        }
        let m = mask(w);
        if cp > m || cn > m || pos.iter().chain(neg.iter()).any(|x| x.0 > m >> 1) {
            return None;
        }
        let fits = |s: &Self, c: u128, ts: &[(u128, T)]| s.lin_interval_c(w, false, c, ts) || ts.is_empty();
        if !fits(self, cp, &pos) || !fits(self, cn, &neg) {
            return None;
        }
        // X+kk > 0  <=> neg + cn < pos + cp
        let p = self.mk_lin(w, cp, pos);
        let n = self.mk_lin(w, cn, neg);
        if eq {
            if self.hi(p) < self.lo(n) || self.hi(n) < self.lo(p) {
                return Some(self.ff);
            }
            if p == n {
                return Some(self.tt);
            }
            let (x, y) = if p < n { (p, n) } else { (n, p) };
            // single-variable zext equalities etc.
            if !matches!(self.k(x), K::Lin(..)) && !matches!(self.k(y), K::Lin(..)) {
                return Some(self.eq(x, y));
            }
            return Some(self.mk(K::Eq(x, y), 1, 0, 1, true));
        }
        if self.hi(n) < self.lo(p) {
            return Some(self.tt);
        }
        if self.lo(n) >= self.hi(p) {
            return Some(self.ff);
        }
        if !matches!(self.k(n), K::Lin(..)) && !matches!(self.k(p), K::Lin(..)) {
            return Some(self.ult_raw(n, p));
        }
        Some(self.mk(K::Ult(n, p), 1, 0, 1, true))
    }
    fn ult_raw(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        // narrow zero-extended operands
        let nar = |s: &Self, t: T| -> u32 {
            match s.k(t) {
                K::Zext(x) => s.w(*x),
                K::Const(c) => 128 - c.leading_zeros(),
                _ => w,
            }
        };
        let m = nar(self, a).max(nar(self, b)).max(1);
        if m < w && !(self.cv(a).is_some() && self.cv(b).is_some()) {
            let (x, y) = (self.extract(a, 0, m), self.extract(b, 0, m));
            return self.ult(x, y);
        }
        // 0 < x  <=> x != 0 ; x < 1 <=> x == 0
        if self.cv(a) == Some(0) {
            let e = self.eq(a, b);
            return self.not(e);
        }
        if self.cv(b) == Some(1) {
            let z = self.konst(w, 0);
            return self.eq(a, z);
        }
        if self.cv(b) == Some(mask(w)) {
            let e = self.eq(a, b);
            return self.not(e);
        }
        if let (Some(_), K::Ite(c, x, y)) = (self.cv(a), self.k(b).clone()) {
            if self.cv(x).is_some() || self.cv(y).is_some() {
                let (e1, e2) = (self.ult(a, x), self.ult(a, y));
                return self.ite(c, e1, e2);
            }
        }
        if let (K::Ite(c, x, y), Some(_)) = (self.k(a).clone(), self.cv(b)) {
            if self.cv(x).is_some() || self.cv(y).is_some() {
                let (e1, e2) = (self.ult(x, b), self.ult(y, b));
                return self.ite(c, e1, e2);
            }
        }
        self.mk(K::Ult(a, b), 1, 0, 1, true)
    }
    pub fn ult(&mut self, a: T, b: T) -> T {
        if a == b || self.lo(a) >= self.hi(b) {
            return self.ff;
        }
        if self.hi(a) < self.lo(b) {
            return self.tt;
        }
        let w = self.w(a);
        if w == 1 {
            let na = self.not(a);
            return self.and(na, b);
        }
        let (ea, eb) = (self.n[a as usize].exact, self.n[b as usize].exact);
        if ea && eb {
            if let Some(r) = self.cmp_norm(a, b, false) {
                return r;
            }
        } else if !ea && eb {
            // overflow idiom: x + y < x
            let d = self.sub(a, b);
            if self.n[d as usize].exact && self.w(d) == w && d != a {
                if let K::Lin(_, ts) = self.k(a) {
                    if ts.len() >= 2 || !matches!(self.k(d), K::Const(_)) {
                        return self.uadd_ovf(b, d);
                    }
                }
            }
        }
        self.ult_raw(a, b)
    }
    pub fn ule(&mut self, a: T, b: T) -> T {
        let x = self.ult(b, a);
        self.not(x)
    }
    pub fn slt(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        let h = 1u128 << (w - 1);
        if self.hi(a) < h && self.hi(b) < h {
            return self.ult(a, b);
        }
        if self.hi(a) < h && self.lo(b) >= h {
            return self.ff;
        }
        if self.lo(a) >= h && self.hi(b) < h {
            return self.tt;
        }
        if self.lo(a) >= h && self.lo(b) >= h {
            return self.ult(a, b);
        }
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.boolean((x ^ h) < (y ^ h));
        }
        if a == b {
            return self.ff;
        }
        self.mk(K::Slt(a, b), 1, 0, 1, true)
    }
    /// Concrete evaluation under a model (vars missing default to 0).
    pub fn eval(&self, t: T, m: &Model, cache: &mut HashMap<T, u128>) -> u128 {
        if let Some(&v) = cache.get(&t) {
            return v;
        }
        let n = &self.n[t as usize];
        let w = n.w;
        let mk = mask(w);
        macro_rules! e {
            ($x:expr) => {
                self.eval($x, m, cache)
            };
        }
        let v = match &n.k {
            K::Const(c) => *c,
            K::Var(i) => m.get(*i as usize).copied().flatten().unwrap_or(0) & mk,
            K::Lin(c, ts) => {
                let mut s = *c;
                for (k, x) in ts.iter() {
                    s = s.wrapping_add(k.wrapping_mul(e!(*x)));
                }
                s
            }
            K::Mul(a, b) => e!(*a).wrapping_mul(e!(*b)),
            K::UDiv(a, b) => {
                let (x, y) = (e!(*a), e!(*b));
                if y == 0 {
                    mk
                } else {
                    x / y
                }
            }
            K::URem(a, b) => {
                let (x, y) = (e!(*a), e!(*b));
                if y == 0 {
                    x
                } else {
                    x % y
                }
            }
            K::And(a, b) => e!(*a) & e!(*b),
            K::Or(a, b) => e!(*a) | e!(*b),
            K::Xor(a, b) => e!(*a) ^ e!(*b),
            K::Not(a) => 1 - e!(*a),
            K::Shl(a, b) => {
                let (x, s) = (e!(*a), e!(*b));
                if s >= w as u128 {
                    0
                } else {
                    x << s
                }
            }
            K::Lshr(a, b) => {
                let (x, s) = (e!(*a), e!(*b));
                if s >= w as u128 {
                    0
                } else {
                    x >> s
                }
            }
            K::Ashr(a, b) => {
                let (x, s) = (e!(*a), e!(*b));
                let sh = 128 - w;
                let sx = ((x << sh) as i128) >> sh;
                (sx >> s.min(127)) as u128
            }
            K::Eq(a, b) => (e!(*a) == e!(*b)) as u128,
            K::Ult(a, b) => (e!(*a) < e!(*b)) as u128,
            K::Slt(a, b) => {
                let h = 1u128 << (self.w(*a) - 1);
                ((e!(*a) ^ h) < (e!(*b) ^ h)) as u128
            }
            K::Ite(c, a, b) => {
                if e!(*c) == 1 {
                    e!(*a)
                } else {
                    e!(*b)
                }
            }
            K::Zext(a) => e!(*a),
            K::Sext(a) => {
                let x = e!(*a);
                let sh = 128 - self.w(*a);
                (((x << sh) as i128) >> sh) as u128
            }
            K::Extract(a, lo) => e!(*a) >> lo,
            K::Concat(h, l) => {
                let lw = self.w(*l);
                (e!(*h) << lw) | e!(*l)
            }
            K::UMulOvf(a, b) => {
                let p = U256::mul(e!(*a), e!(*b));
                let aw = self.w(*a);
                (p.h != 0 || p.l > mask(aw)) as u128
            }
        } & mk;
        cache.insert(t, v);
        v
    }
    pub fn children(&self, t: T) -> Vec<T> {
        match self.k(t) {
            K::Const(_) | K::Var(_) => vec![],
            K::Lin(_, ts) => ts.iter().map(|x| x.1).collect(),
            K::Not(a) | K::Zext(a) | K::Sext(a) | K::Extract(a, _) => vec![*a],
            K::Ite(a, b, c) => vec![*a, *b, *c],
            K::Mul(a, b)
            | K::UDiv(a, b)
            | K::URem(a, b)
            | K::And(a, b)
            | K::Or(a, b)
            | K::Xor(a, b)
            | K::Shl(a, b)
            | K::Lshr(a, b)
            | K::Ashr(a, b)
            | K::Eq(a, b)
            | K::Ult(a, b)
            | K::Slt(a, b)
            | K::Concat(a, b)
            | K::UMulOvf(a, b) => vec![*a, *b],
        }
    }
}

impl Terms {
    /// short rendering for diagnostics
    pub fn show(&self, t: T, depth: u32) -> String {
        match self.k(t) {
            K::Const(c) => format!("{}", c),
            K::Var(i) => format!("v{}", i),
            _ if depth == 0 => "..".into(),
            K::Lin(c, l) => {
                let w = self.w(t);
                let sg = |c: u128| if (c >> (w - 1)) & 1 == 1 { format!("-{}", c.wrapping_neg() & mask(w)) } else { c.to_string() };
                format!("({}{})", l.iter().map(|(k, x)| format!("{}*{}", sg(*k), self.show(*x, depth - 1))).collect::<Vec<_>>().join("+"), if *c == 0 { String::new() } else { format!("+{}", sg(*c)) })
            }
            k => {
                let d = format!("{:?}", k);
                let n: String = d.chars().take_while(|c| c.is_alphanumeric()).collect();
                let x = match k {
                    K::Extract(_, lo) => format!("@{}w{}", lo, self.w(t)),
                    K::Zext(_) | K::Sext(_) | K::Concat(..) => format!("w{}", self.w(t)),
                    _ => String::new(),
                };
                format!("{}{}[{}]", n, x, self.children(t).iter().map(|c| self.show(*c, depth - 1)).collect::<Vec<_>>().join(","))
            }
        }
    }
}
