//! Encoding over mathematical integers (nonlinear arithmetic), used where bit-blasting 128-bit products is hopeless.
//! Every operator is either translated exactly (wrap-around made explicit with div/mod) or replaced by a fresh
//! bounded integer: `unsat` is therefore always sound; models are re-validated by the caller.
use crate::solver::*;
use crate::term::*;
use std::collections::HashSet;

fn p2(k: u32) -> String {
    if k < 128 {
        (1u128 << k).to_string()
    } else {
        "340282366920938463463374607431768211456".into()
    }
}

/// decimal text of a 128 x 128 bit product
fn mul256(a: u128, b: u128) -> String {
    match a.checked_mul(b) {
        Some(x) => x.to_string(),
        None => format!("(* {} {})", a, b),
    }
}

pub struct Enc {
    pub done: HashSet<T>,
    fresh: u32,
    /// declarations and definitions (never retracted)
    pub out: String,
    /// constraints that give a term its meaning; asserted in every scope that mentions the term
    pub side: std::collections::HashMap<T, String>,
    cur: String,
    cone: std::collections::HashMap<T, std::rc::Rc<Vec<T>>>,
    pub vars: Vec<u32>,
    /// products and quotients of two symbolic operands become uninterpreted (with lemmas)
    pub abs: bool,
}
impl Enc {
    pub fn new(abs: bool) -> Enc {
        Enc { done: HashSet::new(), fresh: 0, out: String::new(), side: Default::default(), cur: String::new(), cone: Default::default(), vars: vec![], abs }
    }
    /// terms below t that carry side constraints
    pub fn sides(&mut self, ts: &Terms, t: T) -> std::rc::Rc<Vec<T>> {
        if let Some(v) = self.cone.get(&t) {
            return v.clone();
        }
        let mut set: Vec<T> = vec![];
        let mut seen: HashSet<T> = HashSet::new();
        for c in ts.children(t) {
            for x in self.sides(ts, c).iter() {
                if seen.insert(*x) {
                    set.push(*x);
                }
            }
        }
        if self.side.contains_key(&t) && seen.insert(t) {
            set.push(t);
        }
        let r = std::rc::Rc::new(set);
        self.cone.insert(t, r.clone());
        r
    }
    /// tangent lemmas for the product (or quotient) t at the point where its operands are va, vb
    pub fn tangent(&self, ts: &Terms, t: T, va: u128, vb: u128) -> Option<String> {
        let (a, b) = match ts.k(t) {
            K::Mul(a, b) | K::UMulOvf(a, b) | K::UDiv(a, b) | K::URem(a, b) => (*a, *b),
            _ => return None,
        };
        if ts.cv(a).is_some() || ts.cv(b).is_some() {
            return None;
        }
        let (ra, rb) = (self.r(ts, a), self.r(ts, b));
        let (x, p, q, vp, vq) = match ts.k(t) {
            K::Mul(..) | K::UMulOvf(..) => {
                if a <= b {
                    (format!("(imul {ra} {rb})"), ra, rb, va, vb)
                } else {
                    (format!("(imul {rb} {ra})"), rb, ra, vb, va)
                }
            }
            _ => {
                if vb == 0 {
                    return None;
                }
                (format!("(imul (idiv {ra} {rb}) {rb})"), format!("(idiv {ra} {rb})"), rb, va / vb, vb)
            }
        };
        let pr = mul256(vp, vq);
        Some(format!(
            "(assert (=> (= {p} {vp}) (= {x} (* {vp} {q}))))\n(assert (=> (= {q} {vq}) (= {x} (* {vq} {p}))))\n\
             (assert (=> (or (and (<= {p} {vp}) (<= {q} {vq})) (and (>= {p} {vp}) (>= {q} {vq}))) (>= {x} (- (+ (* {vq} {p}) (* {vp} {q})) {pr}))))\n\
             (assert (=> (or (and (<= {p} {vp}) (>= {q} {vq})) (and (>= {p} {vp}) (<= {q} {vq}))) (<= {x} (- (+ (* {vq} {p}) (* {vp} {q})) {pr}))))\n"
        ))
    }
    fn prod(&mut self, ts: &Terms, a: T, b: T) -> String {
        let (ra, rb) = (self.r(ts, a), self.r(ts, b));
        if !self.abs || ts.cv(a).is_some() || ts.cv(b).is_some() {
            return format!("(* {} {})", ra, rb);
        }
        let (ra, rb) = if a <= b { (ra, rb) } else { (rb, ra) };
        let x = format!("(imul {} {})", ra, rb);
        self.cur.push_str(&format!("(assert (=> (or (= {ra} 0) (= {rb} 0)) (= {x} 0)))\n(assert (=> (= {ra} 1) (= {x} {rb})))\n(assert (=> (= {rb} 1) (= {x} {ra})))\n(assert (=> (> {ra} 0) (>= {x} {rb})))\n(assert (=> (> {rb} 0) (>= {x} {ra})))\n(assert (>= {x} 0))\n"));
        // tangents at the interval end points
        let (la, ha) = (ts.n[a as usize].lo, ts.n[a as usize].hi);
        let (lb, hb) = (ts.n[b as usize].lo, ts.n[b as usize].hi);
        let (la, ha, lb, hb) = if a <= b { (la, ha, lb, hb) } else { (lb, hb, la, ha) };
        self.cur.push_str(&format!("(assert (<= {x} (* {ha} {rb})))\n(assert (<= {x} (* {hb} {ra})))\n(assert (>= {x} (* {la} {rb})))\n(assert (>= {x} (* {lb} {ra})))\n"));
        x
    }
    pub fn r(&self, ts: &Terms, t: T) -> String {
        match ts.k(t) {
            K::Const(c) => {
                if ts.w(t) == 1 {
                    if *c == 1 { "true".into() } else { "false".into() }
                } else {
                    c.to_string()
                }
            }
            K::Var(i) => format!("v{}", i),
            _ => format!("t{}", t),
        }
    }
    /// integer view even of booleans
    fn ri(&self, ts: &Terms, t: T) -> String {
        let s = self.r(ts, t);
        if ts.w(t) == 1 {
            format!("(ite {} 1 0)", s)
        } else {
            s
        }
    }
    fn freshint(&mut self, hi: &str) -> String {
        self.fresh += 1;
        let n = format!("f{}", self.fresh);
        self.out.push_str(&format!("(declare-const {} Int)\n", n));
        self.cur.push_str(&format!("(assert (and (<= 0 {}) (<= {} {})))\n", n, n, hi));
        n
    }
    fn freshnat(&mut self) -> String {
        self.fresh += 1;
        let n = format!("f{}", self.fresh);
        self.out.push_str(&format!("(declare-const {} Int)\n", n));
        self.cur.push_str(&format!("(assert (<= 0 {}))\n", n));
        n
    }
    /// (quotient, remainder) of nonneg expression by positive constant text
    fn divc(&mut self, e: &str, c: &str) -> (String, String) {
        let q = self.freshnat();
        let r = self.freshnat();
        self.cur.push_str(&format!("(assert (and (< {} {}) (= {} (+ (* {} {}) {}))))\n", r, c, e, c, q, r));
        (q, r)
    }
    fn modint(&mut self, e: &str, w: u32) -> String {
        // e may be negative
        self.fresh += 1;
        let q = format!("f{}", self.fresh);
        self.out.push_str(&format!("(declare-const {} Int)\n", q));
        let r = self.freshnat();
        self.cur.push_str(&format!("(assert (and (< {} {}) (= {} (+ (* {} {}) {}))))\n", r, p2(w), e, p2(w), q, r));
        r
    }
    pub fn define(&mut self, ts: &Terms, t: T) {
        let mut stack = vec![(t, false)];
        while let Some((x, post)) = stack.pop() {
            if self.done.contains(&x) {
                continue;
            }
            if !post {
                stack.push((x, true));
                for c in ts.children(x) {
                    if !self.done.contains(&c) {
                        stack.push((c, false));
                    }
                }
                continue;
            }
            self.done.insert(x);
            self.one(ts, x);
        }
    }
    fn one(&mut self, ts: &Terms, x: T) {
        let w = ts.w(x);
        let n = &ts.n[x as usize];
        let hi = n.hi;
        let body: String = match &n.k {
            K::Const(_) => return,
            K::Var(i) => {
                self.vars.push(*i);
                if w == 1 {
                    self.out.push_str(&format!("(declare-const v{} Bool)\n", i));
                } else {
                    self.out.push_str(&format!("(declare-const v{} Int)\n", i));
                    self.side.insert(x, format!("(assert (and (<= 0 v{}) (< v{} {})))\n", i, i, p2(w)));
                }
                return;
            }
            K::Lin(c, l) => {
                let mut parts = vec![];
                for (co, t) in l.iter() {
                    let neg = (co >> (w - 1)) & 1 == 1;
                    let m = if neg { (!co).wrapping_add(1) & mask(w) } else { *co };
                    let s = self.ri(ts, *t);
                    let s = if m == 1 { s } else { format!("(* {} {})", m, s) };
                    parts.push(if neg { format!("(- {})", s) } else { s });
                }
                if *c != 0 {
                    let plain = ts.lin_fits(w, *c, l);
                    if plain || (c >> (w - 1)) & 1 == 0 {
                        parts.push(c.to_string());
                    } else {
                        parts.push(format!("(- {})", (!c).wrapping_add(1) & mask(w)));
                    }
                }
                let s = if parts.len() == 1 { parts[0].clone() } else { format!("(+ {})", parts.join(" ")) };
                if n.exact {
                    s
                } else {
                    self.modint(&s, w)
                }
            }
            K::Mul(a, b) => {
                let s = self.prod(ts, *a, *b);
                if n.exact {
                    s
                } else {
                    self.modint(&s, w)
                }
            }
            K::UMulOvf(a, b) => {
                let s = self.prod(ts, *a, *b);
                format!("(>= {} {})", s, p2(ts.w(*a)))
            }
            K::UDiv(a, b) | K::URem(a, b) => {
                let isdiv = matches!(n.k, K::UDiv(..));
                let (ra, rb) = (self.r(ts, *a), self.r(ts, *b));
                if let Some(c) = ts.cv(*b) {
                    if c == 0 {
                        self.freshint(&hi.to_string())
                    } else {
                        let (q, r) = self.divc(&ra, &c.to_string());
                        if isdiv { q } else { r }
                    }
                } else if self.abs {
                    let q = format!("(idiv {} {})", ra, rb);
                    let r = format!("(irem {} {})", ra, rb);
                    self.cur.push_str(&format!("(assert (=> (> {rb} 0) (= {ra} (+ (imul {q} {rb}) {r}))))\n"));
                    self.cur.push_str(&format!(
                        "(assert (and (<= 0 {q}) (<= 0 {r}) (<= {q} {ra}) (<= {r} {ra})))\n(assert (=> (> {rb} 0) (and (< {r} {rb}) (= (< {ra} {rb}) (= {q} 0)) (=> (< {ra} {rb}) (= {r} {ra})))))\n(assert (=> (= {rb} 1) (and (= {q} {ra}) (= {r} 0))))\n"
                    ));
                    if isdiv { q } else { r }
                } else {
                    let q = self.freshnat();
                    let r = self.freshnat();
                    self.cur.push_str(&format!(
                        "(assert (=> (not (= {} 0)) (and (< {} {}) (= {} (+ (* {} {}) {})))))\n(assert (<= {} {}))\n",
                        rb, r, rb, ra, rb, q, r, q, ra
                    ));
                    if isdiv { q } else { r }
                }
            }
            K::And(a, b) if w == 1 => format!("(and {} {})", self.r(ts, *a), self.r(ts, *b)),
            K::Or(a, b) if w == 1 => format!("(or {} {})", self.r(ts, *a), self.r(ts, *b)),
            K::Xor(a, b) if w == 1 => format!("(xor {} {})", self.r(ts, *a), self.r(ts, *b)),
            K::Not(a) => format!("(not {})", self.r(ts, *a)),
            K::And(a, b) => {
                let mut res = None;
                for (p, q) in [(*a, *b), (*b, *a)] {
                    if let Some(c) = ts.cv(p) {
                        if (c & c.wrapping_add(1)) == 0 && c != 0 && c != u128::MAX {
                            let e = self.r(ts, q);
                            res = Some(self.divc(&e, &(c + 1).to_string()).1);
                            break;
                        }
                    }
                }
                match res {
                    Some(r) => r,
                    None => {
                        let f = self.freshint(&hi.to_string());
                        self.cur.push_str(&format!("(assert (and (<= {} {}) (<= {} {})))\n", f, self.r(ts, *a), f, self.r(ts, *b)));
                        f
                    }
                }
            }
            K::Shl(a, b) if ts.cv(*b).map_or(false, |c| c < w as u128) => {
                let s = format!("(* {} {})", p2(ts.cv(*b).unwrap() as u32), self.r(ts, *a));
                self.modint(&s, w)
            }
            K::Lshr(a, b) if ts.cv(*b).map_or(false, |c| c < w as u128) => {
                let e = self.r(ts, *a);
                self.divc(&e, &p2(ts.cv(*b).unwrap() as u32)).0
            }
            K::Or(..) | K::Xor(..) | K::Shl(..) | K::Lshr(..) | K::Ashr(..) => self.freshint(&hi.to_string()),
            K::Eq(a, b) => format!("(= {} {})", self.r(ts, *a), self.r(ts, *b)),
            K::Ult(a, b) => format!("(< {} {})", self.r(ts, *a), self.r(ts, *b)),
            K::Slt(a, b) => {
                let aw = ts.w(*a);
                let f = |s: String| format!("(ite (>= {} {}) (- {} {}) {})", s, p2(aw - 1), s, p2(aw), s);
                format!("(< {} {})", f(self.r(ts, *a)), f(self.r(ts, *b)))
            }
            K::Ite(c, a, b) => format!("(ite {} {} {})", self.r(ts, *c), self.r(ts, *a), self.r(ts, *b)),
            K::Zext(a) => self.ri(ts, *a),
            K::Sext(a) => {
                let aw = ts.w(*a);
                let s = self.ri(ts, *a);
                let add = (mask(w) - mask(aw)).to_string();
                format!("(ite (>= {} {}) (+ {} {}) {})", s, p2(aw - 1), s, add, s)
            }
            K::Extract(a, lo) => {
                let mut e = self.ri(ts, *a);
                let aw = ts.w(*a);
                if *lo > 0 {
                    e = self.divc(&e, &p2(*lo)).0;
                }
                if lo + w < aw {
                    e = self.divc(&e, &p2(w)).1;
                }
                if w == 1 {
                    format!("(= {} 1)", e)
                } else {
                    e
                }
            }
            K::Concat(a, b) => {
                let lw = ts.w(*b);
                format!("(+ (* {} {}) {})", p2(lw), self.ri(ts, *a), self.ri(ts, *b))
            }
        };
        let sort = if w == 1 { "Bool" } else { "Int" };
        // nonlinear results become named constants so that bounds can be attached
        if matches!(n.k, K::Mul(..)) {
            self.out.push_str(&format!("(declare-const t{} Int)\n", x));
            self.cur.push_str(&format!("(assert (= t{} {}))\n(assert (and (<= {} t{}) (<= t{} {})))\n", x, body, n.lo, x, x, n.hi));
        } else {
            self.out.push_str(&format!("(define-fun t{} () {} {})\n", x, sort, body));
        }
        if !self.cur.is_empty() {
            self.side.insert(x, std::mem::take(&mut self.cur));
        }
    }
}

fn vars_of(ts: &Terms, t: T, memo: &mut std::collections::HashMap<T, std::rc::Rc<HashSet<u32>>>) -> std::rc::Rc<HashSet<u32>> {
    if let Some(v) = memo.get(&t) {
        return v.clone();
    }
    let mut s = HashSet::new();
    if let K::Var(i) = ts.k(t) {
        s.insert(*i);
    }
    for c in ts.children(t) {
        let x = vars_of(ts, c, memo);
        s.extend(x.iter());
    }
    let r = std::rc::Rc::new(s);
    memo.insert(t, r.clone());
    r
}

pub fn vars(ts: &Terms, conds: &[T]) -> HashSet<u32> {
    let mut memo = std::collections::HashMap::new();
    let mut r = HashSet::new();
    for c in conds {
        r.extend(vars_of(ts, *c, &mut memo).iter());
    }
    r
}

/// Conditions connected with the last one through shared variables.
pub fn slice(ts: &Terms, conds: &[T]) -> Vec<T> {
    let mut memo = std::collections::HashMap::new();
    let q = *conds.last().unwrap();
    let mut vs: HashSet<u32> = vars_of(ts, q, &mut memo).iter().copied().collect();
    let mut inn = vec![false; conds.len()];
    *inn.last_mut().unwrap() = true;
    loop {
        let mut ch = false;
        for (i, c) in conds.iter().enumerate() {
            if inn[i] {
                continue;
            }
            let v = vars_of(ts, *c, &mut memo);
            if v.iter().any(|x| vs.contains(x)) {
                inn[i] = true;
                vs.extend(v.iter());
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    conds.iter().enumerate().filter(|(i, _)| inn[*i]).map(|(_, c)| *c).collect()
}

pub fn solve(sv: &mut Solver, ts: &mut Terms, conds: &[T]) -> (Res, Option<Vec<Option<u128>>>) {
    let mut e = Enc::new(false);
    for c in conds {
        e.define(ts, *c);
    }
    let mut s = String::from("(set-option :produce-models true)\n(set-logic ALL)\n");
    s.push_str(&e.out);
    for (_, x) in &e.side {
        s.push_str(x);
    }
    for c in conds {
        s.push_str(&format!("(assert {})\n", e.r(ts, *c)));
    }
    s.push_str("(check-sat)\n");
    if !e.vars.is_empty() {
        s.push_str("(get-value (");
        for v in &e.vars {
            s.push_str(&format!("v{} ", v));
        }
        s.push_str("))\n");
    }
    sv.race_int(ts, &s)
}
