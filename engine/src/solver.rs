//! SMT back end: an incremental z3 process for path feasibility and assertions
//! (with products and quotients abstracted first), plus one-shot exact queries.
use crate::ints::Enc;
use crate::term::*;
use std::collections::{HashMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

/// Text emission of terms. `abs`: nonlinear operators become uninterpreted functions.
pub struct Emit {
    pub abs: bool,
    done: HashSet<T>,
    pub lem: HashMap<T, Vec<T>>, // nonlinear nodes per term cone (memo)
}

fn sort(w: u32) -> String {
    if w == 1 {
        "Bool".into()
    } else {
        format!("(_ BitVec {})", w)
    }
}
fn bv(w: u32, c: u128) -> String {
    if w == 1 {
        return if c & 1 == 1 { "true".into() } else { "false".into() };
    }
    if w % 4 == 0 {
        format!("#x{:0>width$x}", c, width = (w / 4) as usize)
    } else {
        format!("#b{:0>width$b}", c, width = w as usize)
    }
}

impl Emit {
    pub fn new(abs: bool) -> Emit {
        Emit { abs, done: HashSet::new(), lem: HashMap::new() }
    }
    pub fn r(&self, ts: &Terms, t: T) -> String {
        match ts.k(t) {
            K::Const(c) => bv(ts.w(t), *c),
            K::Var(i) => format!("v{}", i),
            _ => format!("t{}", t),
        }
    }
    fn bvr(&self, ts: &Terms, t: T) -> String {
        // as bit-vector even when boolean
        let s = self.r(ts, t);
        if ts.w(t) == 1 {
            format!("(ite {} #b1 #b0)", s)
        } else {
            s
        }
    }
    /// Emit declarations/definitions needed for `t` into `out`.
    pub fn define(&mut self, ts: &Terms, t: T, out: &mut String) {
        let mut stack = vec![(t, false)];
        while let Some((x, post)) = stack.pop() {
            if self.done.contains(&x) {
                continue;
            }
            if !post {
                stack.push((x, true));
                for c in ts.children(x) {
                    if !self.done.contains(&c) {
                        stack.push((c, false));
                    }
                }
                continue;
            }
            self.done.insert(x);
            let w = ts.w(x);
            match ts.k(x) {
                K::Const(_) => {}
                K::Var(i) => out.push_str(&format!("(declare-const v{} {})\n", i, sort(w))),
                k => {
                    let b = self.body(ts, k, w);
                    out.push_str(&format!("(define-fun t{} () {} {})\n", x, sort(w), b));
                }
            }
        }
    }
    fn body(&self, ts: &Terms, k: &K, w: u32) -> String {
        let r = |t: T| self.r(ts, t);
        let bin = |op: &str, a: T, b: T| format!("({} {} {})", op, self.r(ts, a), self.r(ts, b));
        match k {
            K::Lin(c, l) => {
                let mut parts = vec![];
                let mut negs = vec![];
                for (co, t) in l.iter() {
                    let neg = (co >> (w - 1)) & 1 == 1;
                    let m = if neg { (!co).wrapping_add(1) & mask(w) } else { *co };
                    let s = if m == 1 { r(*t) } else { format!("(bvmul {} {})", bv(w, m), r(*t)) };
                    if neg {
                        negs.push(s)
                    } else {
                        parts.push(s)
                    }
                }
                if *c != 0 || parts.is_empty() {
                    parts.push(bv(w, *c));
                }
                let sum = |v: &[String]| {
                    let mut s = v[0].clone();
                    for x in &v[1..] {
                        s = format!("(bvadd {} {})", s, x);
                    }
                    s
                };
                let p = sum(&parts);
                if negs.is_empty() {
                    p
                } else {
                    format!("(bvsub {} {})", p, sum(&negs))
                }
            }
            K::Mul(a, b) => {
                if self.abs && WIDTHS.contains(&w) {
                    bin(&format!("umul{}", w), *a, *b)
                } else {
                    bin("bvmul", *a, *b)
                }
            }
            K::UDiv(a, b) => {
                if self.abs && WIDTHS.contains(&w) {
                    bin(&format!("udiv{}", w), *a, *b)
                } else {
                    bin("bvudiv", *a, *b)
                }
            }
            K::URem(a, b) => {
                if self.abs && WIDTHS.contains(&w) {
                    bin(&format!("urem{}", w), *a, *b)
                } else {
                    bin("bvurem", *a, *b)
                }
            }
            K::And(a, b) => bin(if w == 1 { "and" } else { "bvand" }, *a, *b),
            K::Or(a, b) => bin(if w == 1 { "or" } else { "bvor" }, *a, *b),
            K::Xor(a, b) => bin(if w == 1 { "xor" } else { "bvxor" }, *a, *b),
            K::Not(a) => format!("(not {})", r(*a)),
            K::Shl(a, b) => bin("bvshl", *a, *b),
            K::Lshr(a, b) => bin("bvlshr", *a, *b),
            K::Ashr(a, b) => bin("bvashr", *a, *b),
            K::Eq(a, b) => bin("=", *a, *b),
            K::Ult(a, b) => bin("bvult", *a, *b),
            K::Slt(a, b) => bin("bvslt", *a, *b),
            K::Ite(a, b, c) => format!("(ite {} {} {})", r(*a), r(*b), r(*c)),
            K::Zext(a) => {
                let aw = ts.w(*a);
                if aw == 1 {
                    format!("(ite {} {} {})", r(*a), bv(w, 1), bv(w, 0))
                } else {
                    format!("((_ zero_extend {}) {})", w - aw, r(*a))
                }
            }
            K::Sext(a) => format!("((_ sign_extend {}) {})", w - ts.w(*a), self.bvr(ts, *a)),
            K::Extract(a, lo) => {
                let e = format!("((_ extract {} {}) {})", lo + w - 1, lo, r(*a));
                if w == 1 {
                    format!("(= {} #b1)", e)
                } else {
                    e
                }
            }
            K::Concat(a, b) => format!("(concat {} {})", self.bvr(ts, *a), self.bvr(ts, *b)),
            K::UMulOvf(a, b) => {
                let aw = ts.w(*a);
                if self.abs && WIDTHS.contains(&aw) {
                    bin(&format!("umov{}", aw), *a, *b)
                } else {
                    format!(
                        "(not (= ((_ extract {} {}) (bvmul ((_ zero_extend {}) {}) ((_ zero_extend {}) {}))) {}))",
                        2 * aw - 1,
                        aw,
                        aw,
                        r(*a),
                        aw,
                        r(*b),
                        bv(aw, 0)
                    )
                }
            }
            K::Const(_) | K::Var(_) => unreachable!(),
        }
    }
    /// Nonlinear nodes in the cone of t.
    pub fn nonlinear(&mut self, ts: &Terms, t: T) -> Vec<T> {
        if let Some(v) = self.lem.get(&t) {
            return v.clone();
        }
        let mut set = vec![];
        for c in ts.children(t) {
            for x in self.nonlinear(ts, c) {
                if !set.contains(&x) {
                    set.push(x);
                }
            }
        }
        if matches!(ts.k(t), K::Mul(..) | K::UDiv(..) | K::URem(..) | K::UMulOvf(..)) && !set.contains(&t) {
            set.push(t);
        }
        self.lem.insert(t, set.clone());
        set
    }
    /// Facts that hold for the real operator at node t (used to constrain its abstraction).
    pub fn lemmas(&self, ts: &Terms, t: T) -> Vec<String> {
        let w = ts.w(t);
        let x = self.r(ts, t);
        let mut v = vec![];
        let n = &ts.n[t as usize];
        match &n.k {
            K::Mul(a, b) => {
                let (ra, rb) = (self.r(ts, *a), self.r(ts, *b));
                let (z, o) = (bv(w, 0), bv(w, 1));
                v.push(format!("(=> (= {} {}) (= {} {}))", ra, z, x, z));
                v.push(format!("(=> (= {} {}) (= {} {}))", rb, z, x, z));
                v.push(format!("(=> (= {} {}) (= {} {}))", ra, o, x, rb));
                v.push(format!("(=> (= {} {}) (= {} {}))", rb, o, x, ra));
                if n.exact {
                    v.push(format!("(=> (not (= {} {})) (bvuge {} {}))", ra, z, x, rb));
                    v.push(format!("(=> (not (= {} {})) (bvuge {} {}))", rb, z, x, ra));
                    v.push(format!("(bvule {} {})", x, bv(w, n.hi)));
                }
            }
            K::UMulOvf(a, b) => {
                let aw = ts.w(*a);
                let (ra, rb) = (self.r(ts, *a), self.r(ts, *b));
                let o = bv(aw, 1);
                v.push(format!("(=> (bvule {} {}) (not {}))", ra, o, x));
                v.push(format!("(=> (bvule {} {}) (not {}))", rb, o, x));
                let h = bv(aw, mask(aw / 2));
                v.push(format!("(=> (and (bvule {} {}) (bvule {} {})) (not {}))", ra, h, rb, h, x));
                v.push(format!("(=> (and (bvugt {} {}) (bvugt {} {})) {})", ra, h, rb, h, x));
            }
            K::UDiv(a, b) => {
                let (ra, rb) = (self.r(ts, *a), self.r(ts, *b));
                let (z, o) = (bv(w, 0), bv(w, 1));
                if let Some(c) = ts.cv(*b) {
                    v.push(format!("(bvule {} {})", x, bv(w, n.hi)));
                    if w <= 64 {
                        // exact definition: c*q <= a < c*q + c
                        v.push(format!("(bvule (bvmul {} {}) {})", rb, x, ra));
                        v.push(format!("(bvult (bvsub {} (bvmul {} {})) {})", ra, rb, x, rb));
                    } else {
                        let _ = c;
                        v.push(format!("(= (= {} {}) (bvult {} {}))", x, z, ra, rb));
                        v.push(format!("(bvule {} {})", x, ra));
                    }
                } else {
                    v.push(format!("(=> (not (= {} {})) (= (bvult {} {}) (= {} {})))", rb, z, ra, rb, x, z));
                    v.push(format!("(=> (not (= {} {})) (bvule {} {}))", rb, z, x, ra));
                    v.push(format!("(=> (= {} {}) (= {} {}))", rb, o, x, ra));
                }
            }
            K::URem(a, b) => {
                let (ra, rb) = (self.r(ts, *a), self.r(ts, *b));
                let z = bv(w, 0);
                v.push(format!("(=> (not (= {} {})) (bvult {} {}))", rb, z, x, rb));
                v.push(format!("(bvule {} {})", x, ra));
                v.push(format!("(=> (bvult {} {}) (= {} {}))", ra, rb, x, ra));
            }
            _ => {}
        }
        v
    }
}

pub struct Proc {
    ch: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
}
impl Proc {
    fn start(cmd: &[String]) -> Proc {
        let mut ch = Command::new(&cmd[0])
            .args(&cmd[1..])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("cannot start solver");
        let inp = ch.stdin.take().unwrap();
        let out = BufReader::new(ch.stdout.take().unwrap());
        Proc { ch, inp, out }
    }
    fn line(&mut self) -> Option<String> {
        let mut s = String::new();
        match self.out.read_line(&mut s) {
            Ok(0) | Err(_) => None,
            _ => Some(s.trim().to_string()),
        }
    }
}
impl Drop for Proc {
    fn drop(&mut self) {
        let _ = self.ch.kill();
        let _ = self.ch.wait();
    }
}

#[derive(Clone)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub exact: u64,
    pub time: f64,
    pub max: f64,
}

pub struct Solver {
    cmd: Vec<String>,
    exact_cmds: Vec<Vec<String>>,
    p: Option<Proc>,
    em: Enc,
    stack: Vec<T>,
    active: Vec<Vec<T>>, // lemma nodes activated per level
    act: HashSet<T>,
    pub st: Stats,
    pub timeout_ms: u64,
    pub exact_ms: u64,
    /// no exact query runs past this instant
    pub deadline: Option<Instant>,
    tmp: String,
    pub dump: Option<String>,
    ndump: u64,
    tang: HashSet<(T, u128, u128)>,
    tcount: HashMap<T, u32>,
}

const WIDTHS: [u32; 6] = [8, 16, 32, 64, 128, 1];

impl Solver {
    pub fn new(timeout_ms: u64, exact_ms: u64) -> Solver {
        let s = |x: &str| x.split(' ').map(|y| y.to_string()).collect::<Vec<_>>();
        Solver {
            cmd: s(&std::env::var("VPE_SOLVER").unwrap_or("z3-new -in -smt2".into())),
            exact_cmds: std::env::var("VPE_EXACT")
                .unwrap_or("z3-new -smt2;cvc5 --lang=smt2 --produce-models --solve-bv-as-int=sum;cvc5 --lang=smt2 --produce-models".into())
                .split(';')
                .map(s)
                .collect(),
            p: None,
            em: Enc::new(true),
            stack: vec![],
            active: vec![],
            act: HashSet::new(),
            st: Stats { queries: 0, sat: 0, unsat: 0, unknown: 0, exact: 0, time: 0.0, max: 0.0 },
            timeout_ms,
            exact_ms,
            deadline: None,
            tmp: std::env::temp_dir().join(format!("vpe-{}.smt2", std::process::id())).to_string_lossy().into(),
            dump: std::env::var("VPE_DUMP").ok(),
            ndump: 0,
            tang: HashSet::new(),
            tcount: HashMap::new(),
        }
    }
    fn start(&mut self) {
        let mut p = Proc::start(&self.cmd);
        let mut s = String::from("(set-option :global-declarations true)\n(set-option :produce-models true)\n");
        s.push_str(&format!("(set-option :timeout {})\n", self.timeout_ms));
        s.push_str("(declare-fun imul (Int Int) Int)\n(declare-fun idiv (Int Int) Int)\n(declare-fun irem (Int Int) Int)\n");
        p.inp.write_all(s.as_bytes()).unwrap();
        self.p = Some(p);
        self.em = Enc::new(true);
        self.stack.clear();
        self.active.clear();
        self.act.clear();
    }
    /// assert text for condition c, with definitions and not-yet-active lemmas
    fn push_text(&mut self, ts: &Terms, c: T, out: &mut String) -> Vec<T> {
        self.em.define(ts, c);
        out.push_str(&std::mem::take(&mut self.em.out));
        let mut newly = vec![];
        for n in self.em.sides(ts, c).iter() {
            if self.act.insert(*n) {
                newly.push(*n);
            }
        }
        out.push_str("(push 1)\n");
        for n in &newly {
            out.push_str(&self.em.side[n]);
        }
        out.push_str(&format!("(assert {})\n", self.em.r(ts, c)));
        newly
    }
    fn sync(&mut self, ts: &Terms, pc: &[T], out: &mut String) {
        let mut k = 0;
        while k < pc.len() && k < self.stack.len() && pc[k] == self.stack[k] {
            k += 1;
        }
        if self.stack.len() > k {
            out.push_str(&format!("(pop {})\n", self.stack.len() - k));
            while self.stack.len() > k {
                self.stack.pop();
                for n in self.active.pop().unwrap() {
                    self.act.remove(&n);
                }
            }
        }
        for &c in &pc[k..] {
            let nl = self.push_text(ts, c, out);
            self.stack.push(c);
            self.active.push(nl);
        }
    }
    /// Check pc /\ q with abstraction. On Sat returns values of `want` variables.
    pub fn check(&mut self, ts: &Terms, pc: &[T], q: Option<T>) -> (Res, Option<Vec<Option<u128>>>) {
        if self.p.is_none() {
            self.start();
        }
        let t0 = Instant::now();
        let mut out = String::new();
        self.sync(ts, pc, &mut out);
        let mut nl = vec![];
        if let Some(q) = q {
            nl = self.push_text(ts, q, &mut out);
        }
        out.push_str("(check-sat)\n");
        let mut p = self.p.take().unwrap();
        if p.inp.write_all(out.as_bytes()).is_err() || p.inp.flush().is_err() {
            self.st.queries += 1;
            self.st.unknown += 1;
            return (Res::Unknown, None);
        }
        let l = p.line();
        let mut model = None;
        let r = match l.as_deref() {
            Some("sat") => {
                // all variables declared in this process
                let vs: Vec<u32> = (0..ts.vars.len() as u32).filter(|i| self.em.done.contains(&ts.vars[*i as usize].2)).collect();
                let mut m = vec![None; ts.vars.len()];
                if !vs.is_empty() {
                    let mut s = String::from("(get-value (");
                    for v in &vs {
                        s.push_str(&format!("v{} ", v));
                    }
                    s.push_str("))\n(echo \"done\")\n");
                    let _ = p.inp.write_all(s.as_bytes());
                    let _ = p.inp.flush();
                    let mut txt = String::new();
                    while let Some(x) = p.line() {
                        if x == "done" || x == "\"done\"" {
                            break;
                        }
                        txt.push_str(&x);
                        txt.push(' ');
                    }
                    parse_values(&txt, &mut m);
                }
                model = Some(m);
                Res::Sat
            }
            Some("unsat") => Res::Unsat,
            Some("unknown") | Some("timeout") => Res::Unknown,
            other => {
                eprintln!("solver said: {:?}", other);
                // poisoned process: drop and restart next time
                self.st.queries += 1;
                self.st.unknown += 1;
                self.em = Enc::new(true);
                self.tang.clear();
                self.tcount.clear();
                self.stack.clear();
                self.active.clear();
                self.act.clear();
                return (Res::Unknown, None);
            }
        };
        if q.is_some() {
            let _ = p.inp.write_all(b"(pop 1)\n");
            for n in nl {
                self.act.remove(&n);
            }
        }
        self.p = Some(p);
        let dt = t0.elapsed().as_secs_f64();
        self.st.queries += 1;
        self.st.time += dt;
        if dt > self.st.max {
            self.st.max = dt;
        }
        match r {
            Res::Sat => self.st.sat += 1,
            Res::Unsat => self.st.unsat += 1,
            Res::Unknown => self.st.unknown += 1,
        }
        (r, model)
    }
    /// Add tangent lemmas for the nonlinear terms below `conds`; returns how many are new.
    pub fn refine(&mut self, ts: &Terms, conds: &[T], val: &dyn Fn(T) -> u128, local: &mut HashSet<(T, u128, u128)>) -> usize {
        let mut n = 0;
        let mut txt = String::new();
        let mut seen = HashSet::new();
        for c in conds {
            for t in self.em.sides(ts, *c).iter() {
                if !seen.insert(*t) {
                    continue;
                }
                let (a, b) = match ts.k(*t) {
                    K::Mul(a, b) | K::UMulOvf(a, b) | K::UDiv(a, b) | K::URem(a, b) => (*a, *b),
                    _ => continue,
                };
                let (va, vb) = (val(a), val(b));
                if !local.insert((*t, va, vb)) {
                    continue;
                }
                if let Some(l) = self.em.tangent(ts, *t, va, vb) {
                    txt.push_str(&l);
                    if self.tang.insert((*t, va, vb)) {
                        let c = self.tcount.entry(*t).or_insert(0);
                        *c += 1;
                        if *c <= 12 {
                            self.em.side.get_mut(t).unwrap().push_str(&l);
                        }
                    }
                    n += 1;
                }
            }
        }
        if let Some(p) = &mut self.p {
            let _ = p.inp.write_all(txt.as_bytes());
        }
        n
    }
    /// Exact one-shot query with the real semantics of multiplication and division.
    pub fn check_exact(&mut self, ts: &Terms, conds: &[T]) -> (Res, Option<Vec<Option<u128>>>) {
        let mut em = Emit::new(false);
        let mut s = String::from("(set-option :produce-models true)\n(set-logic QF_BV)\n");
        let mut vars = vec![];
        for c in conds {
            em.define(ts, *c, &mut s);
        }
        for c in conds {
            s.push_str(&format!("(assert {})\n", em.r(ts, *c)));
        }
        for i in 0..ts.vars.len() as u32 {
            if em.done.contains(&ts.vars[i as usize].2) {
                vars.push(i);
            }
        }
        s.push_str("(check-sat)\n");
        if !vars.is_empty() {
            s.push_str("(get-value (");
            for v in &vars {
                s.push_str(&format!("v{} ", v));
            }
            s.push_str("))\n");
        }
        self.race(ts, &s, self.exact_cmds.clone())
    }
    /// Exact query over mathematical integers (all terms must be wrap-free; the caller supplies text).
    pub fn race_int(&mut self, ts: &Terms, text: &str) -> (Res, Option<Vec<Option<u128>>>) {
        let s = |x: &str| x.split(' ').map(|y| y.to_string()).collect::<Vec<_>>();
        let cmds = vec![s("z3-new -smt2"), s("cvc5 --lang=smt2 --produce-models --nl-ext-tplanes"), s("z3 -smt2")];
        self.race(ts, text, cmds)
    }
    fn race(&mut self, ts: &Terms, text: &str, cmds: Vec<Vec<String>>) -> (Res, Option<Vec<Option<u128>>>) {
        let t0 = Instant::now();
        self.st.exact += 1;
        self.ndump += 1;
        if let Some(d) = &self.dump {
            let _ = std::fs::write(format!("{}-{}-{}.smt2", d, std::process::id(), self.ndump), text);
        }
        let _ = std::fs::write(&self.tmp, text);
        let mut procs: Vec<(Child, bool)> = cmds
            .iter()
            .enumerate()
            .map(|(i, c)| {
                let f = std::fs::File::create(format!("{}.out{}", self.tmp, i)).unwrap();
                let ch = Command::new(&c[0])
                    .args(&c[1..])
                    .arg(&self.tmp)
                    .stdin(Stdio::null())
                    .stdout(f)
                    .stderr(Stdio::null())
                    .spawn()
                    .expect("solver");
                (ch, false)
            })
            .collect();
        let mut res = (Res::Unknown, None);
        'o: loop {
            let mut alive = false;
            for (i, (ch, done)) in procs.iter_mut().enumerate() {
                if *done {
                    continue;
                }
                match ch.try_wait() {
                    Ok(Some(_)) => {
                        *done = true;
                        let o = std::fs::read_to_string(format!("{}.out{}", self.tmp, i)).unwrap_or_default();
                        let f = o.lines().next().unwrap_or("").trim().to_string();
                        if f == "unsat" {
                            res = (Res::Unsat, None);
                            break 'o;
                        }
                        if f == "sat" {
                            let mut m = vec![None; ts.vars.len()];
                            parse_values(&o[3..], &mut m);
                            res = (Res::Sat, Some(m));
                            break 'o;
                        }
                    }
                    Ok(None) => alive = true,
                    Err(_) => *done = true,
                }
            }
            if !alive || t0.elapsed().as_millis() as u64 > self.exact_ms || self.deadline.map_or(false, |d| Instant::now() > d) {
                break;
            }
            std::thread::sleep(std::time::Duration::from_millis(5));
        }
        for (ch, done) in procs.iter_mut() {
            if !*done {
                let _ = ch.kill();
                let _ = ch.wait();
            }
        }
        for i in 0..cmds.len() {
            let _ = std::fs::remove_file(format!("{}.out{}", self.tmp, i));
        }
        let _ = std::fs::remove_file(&self.tmp);
        let dt = t0.elapsed().as_secs_f64();
        self.st.queries += 1;
        self.st.time += dt;
        if dt > self.st.max {
            self.st.max = dt;
        }
        match res.0 {
            Res::Sat => self.st.sat += 1,
            Res::Unsat => self.st.unsat += 1,
            Res::Unknown => self.st.unknown += 1,
        }
        res
    }
}

fn parse_values(txt: &str, m: &mut Vec<Option<u128>>) {
    // ((v0 #x00) (v1 true) (v2 (_ bv5 64)) (v3 12) ...)
    let toks: Vec<&str> = {
        let mut v = vec![];
        let mut st = None;
        for (i, ch) in txt.char_indices() {
            match ch {
                '(' | ')' | ' ' | '\n' | '\t' => {
                    if let Some(s) = st.take() {
                        v.push(&txt[s..i]);
                    }
                    if ch == '(' || ch == ')' {
                        v.push(&txt[i..i + 1]);
                    }
                }
                _ => {
                    if st.is_none() {
                        st = Some(i);
                    }
                }
            }
        }
        if let Some(s) = st {
            v.push(&txt[s..]);
        }
        v
    };
    let mut i = 0;
    while i < toks.len() {
        if toks[i].starts_with('v') && i > 0 && toks[i - 1] == "(" {
            if let Ok(id) = toks[i][1..].parse::<usize>() {
                let v = toks.get(i + 1).copied().unwrap_or("");
                let val = if let Some(h) = v.strip_prefix("#x") {
                    u128::from_str_radix(h, 16).ok()
                } else if let Some(b) = v.strip_prefix("#b") {
                    u128::from_str_radix(b, 2).ok()
                } else if v == "true" {
                    Some(1)
                } else if v == "false" {
                    Some(0)
                } else if v == "(" && toks.get(i + 2) == Some(&"_") {
                    toks.get(i + 3).and_then(|x| x.strip_prefix("bv")).and_then(|x| x.parse().ok())
                } else {
                    v.parse().ok()
                };
                if id < m.len() {
                    m[id] = val;
                }
            }
        }
        i += 1;
    }
}
