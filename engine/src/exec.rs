//! Symbolic execution of the IR.
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use crate::term::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

pub struct Model {
    pub v: Vec<Option<u128>>,
    pub cache: RefCell<HashMap<T, u128>>,
}

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub regs: Vec<V>,
    pub bb: u32,
    pub prev: u32,
    pub ip: usize,
    pub ret: Option<(u32, u32)>, // caller dst reg, width bookkeeping unused
    pub nb: Option<u32>,         // invoke normal destination in the caller
    pub allocas: Vec<u32>,
}

#[derive(Clone)]
pub enum Inp {
    Sym(String, T),
    Choose(u32),
}

#[derive(Clone)]
pub struct HashRec {
    pub bytes: Rc<Vec<By>>,
    pub cuts: Rc<Vec<usize>>,
    pub out: (T, T), // low 16 bytes, high 16 bytes
    pub curve: T,
}
#[derive(Clone)]
pub struct FindRec {
    pub bytes: Rc<Vec<By>>,
    pub bump: T,
    pub h: usize,
}

#[derive(Clone)]
pub struct State {
    pub fr: Vec<Frame>,
    pub objs: Vec<Rc<Obj>>, // dynamic
    pub free: Vec<u32>,
    pub gov: HashMap<u32, Rc<Obj>>, // written globals
    pub pc: Vec<T>,
    pub pcs: HashSet<T>,
    pub model: Option<Rc<Model>>,
    pub inputs: Vec<Inp>,
    pub trace: Vec<(String, Option<(T, V)>)>,
    pub subst: HashMap<T, u128>,
    /// 64-bit term -> 128-bit term of the same value, for sums known not to wrap on this path
    pub wide: HashMap<T, T>,
    pub hashes: Vec<HashRec>,
    pub finds: Vec<FindRec>,
    pub keys: Vec<(T, T)>,
    pub must: Option<V>,
    pub steps: u64,
    pub forks: u32,
}

#[derive(Clone, Debug)]
pub struct Cex {
    pub label: String,
    pub inputs: Vec<u128>,
    pub names: Vec<String>,
    pub validated: bool,
}

pub enum End {
    Ret,
    Abort(String),
    Killed,
}

pub struct Path {
    pub end: String,
    pub inputs: Vec<u128>,
    pub trace: Vec<String>,
}

pub struct Conf {
    pub params: Vec<u64>,
    pub max_steps: u64,
    pub max_paths: u64,
    pub time_s: f64,
    pub samples: usize,
    pub verbose: bool,
    /// assertion labels to decide (exact, prefix* or *suffix); empty: all
    pub only: Vec<String>,
    pub seed: u64,
}

pub struct Exec {
    pub m: Module,
    pub ts: Terms,
    pub sv: Solver,
    /// second process for the linear part of the path condition
    pub lv: Solver,
    nlm: HashMap<T, bool>,
    pub quick: u64,
    pub gcache: HashMap<u32, Rc<Obj>>,
    pub zero: Rc<Page>,
    pub work: Vec<State>,
    pub conf: Conf,
    pub t0: Instant,
    // results
    pub paths: u64,
    pub ends: BTreeMap<String, u64>,
    pub reach: BTreeMap<String, u64>,
    pub asserts: BTreeMap<String, (u64, u64)>, // label -> (solver-discharged, syntactic)
    pub cexs: Vec<Cex>,
    pub errors: Vec<String>,
    pub inconclusive: Vec<String>,
    pub samples: Vec<Path>,
    pub steps: u64,
    pub forks: u64,
    pub funcs_used: BTreeSet<usize>,
    pub icache: HashMap<usize, Icpt>,
    pub spurious: u64,
    pub mismatch: u64,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Icpt {
    None,
    Sym,
    Key,
    Fixed,
    Choose,
    Param,
    Assume,
    Assert,
    Reach,
    Log,
    Must,
    Ite,
    BytesEq,
    And,
    Or,
    Alloc,
    AllocZ,
    Dealloc,
    Realloc,
    Bcmp,
    Memcmp,
    Strlen,
    Fmt,
    Abort,
    PdaCreate,
    PdaFind,
    PdaTryFind,
    Nop,
    Intrinsic,
}

type R<X> = Result<X, Stop>;
pub enum Stop {
    End(End),
    Err(String),
    Again, // state was replaced by alternatives on the worklist / re-execute
}
macro_rules! err { ($($a:tt)*) => { return Err(Stop::Err(format!($($a)*))) } }

fn ity(t: &TyK) -> Option<u32> {
    match t {
        TyK::Int(w) => Some(*w),
        TyK::Ptr => Some(64),
        _ => None,
    }
}

/// byte i of a term, traced through the slices and concatenations it was put together from
fn byte_of(ts: &Terms, t: T, i: u32) -> By {
    let (mut t, mut i) = (t, i);
    'l: loop {
        match ts.k(t) {
            K::Extract(x, lo) if lo % 8 == 0 && ts.w(t) % 8 == 0 => {
                i += lo / 8;
                t = *x;
                continue;
            }
            K::Concat(h, l) if ts.w(*l) % 8 == 0 => {
                let lb = ts.w(*l) / 8;
                if i < lb {
                    t = *l;
                } else {
                    i -= lb;
                    t = *h;
                }
                continue;
            }
            K::Lin(0, l) if l.len() > 1 => {
                // disjoint byte-aligned pieces
                let mut v: Vec<(u32, u32, T)> = vec![];
                for (co, x) in l.iter() {
                    let sh = co.trailing_zeros();
                    let x = match ts.k(*x) {
                        K::Zext(y) => *y,
                        _ => break 'l,
                    };
                    if co.count_ones() != 1 || sh % 8 != 0 || ts.w(x) % 8 != 0 {
                        break 'l;
                    }
                    v.push((sh / 8, ts.w(x) / 8, x));
                }
                v.sort();
                for p in v.windows(2) {
                    if p[0].0 + p[0].1 > p[1].0 {
                        break 'l;
                    }
                }
                for (at, n, x) in v {
                    if i >= at && i < at + n {
                        i -= at;
                        t = x;
                        continue 'l;
                    }
                }
                return By::C(0);
            }
            _ => break,
        }
    }
    By::S(t, i as u8)
}

impl Exec {
    pub fn new(m: Module, conf: Conf, sv: Solver, lv: Solver) -> Exec {
        Exec {
            m,
            ts: Terms::new(),
            lv,
            nlm: HashMap::new(),
            quick: 0,
            sv,
            gcache: HashMap::new(),
            zero: Rc::new(Page { b: [0; PG], s: None }),
            work: vec![],
            conf,
            t0: Instant::now(),
            paths: 0,
            ends: BTreeMap::new(),
            reach: BTreeMap::new(),
            asserts: BTreeMap::new(),
            cexs: vec![],
            errors: vec![],
            inconclusive: vec![],
            samples: vec![],
            steps: 0,
            forks: 0,
            funcs_used: BTreeSet::new(),
            icache: HashMap::new(),
            spurious: 0,
            mismatch: 0,
        }
    }

    // ---------- values ----------
    fn tv(&mut self, v: &V, w: u32) -> T {
        match v {
            V::C(c) => self.ts.konst(w, *c),
            V::T(t) => *t,
            V::U => self.ts.konst(w, 0),
            x => panic!("tv {:?}", x),
        }
    }
    fn vt(&self, t: T) -> V {
        match self.ts.cv(t) {
            Some(c) => V::C(c),
            None => V::T(t),
        }
    }
    fn op(&self, st: &State, o: &Op) -> V {
        match o {
            Op::K(v) => v.clone(),
            Op::R(r) => st.fr.last().unwrap().regs[*r as usize].clone(),
        }
    }

    // ---------- memory ----------
    fn global(&mut self, id: u32) -> R<Rc<Obj>> {
        if let Some(o) = self.gcache.get(&id) {
            return Ok(o.clone());
        }
        let gi = id as usize - 1;
        if gi >= self.m.gl.len() {
            err!("bad global id {}", id);
        }
        let (t, v) = self.m.global_init(gi);
        let sz = size(&t);
        let mut o = Obj::new(sz, &self.zero);
        match v {
            Some(v) => self.init(&mut o, 0, &t, &v)?,
            None => {
                // external data symbol without definition
                o = Obj::new(sz.max(8), &self.zero);
            }
        }
        let o = Rc::new(o);
        self.gcache.insert(id, o.clone());
        Ok(o)
    }
    fn init(&mut self, o: &mut Obj, off: u64, t: &Ty, v: &V) -> R<()> {
        match (&**t, v) {
            (TyK::Int(w), V::C(c)) => o.write_c(off as usize, ((*w + 7) / 8) as usize, *c),
            (TyK::Ptr, V::C(c)) => o.write_c(off as usize, 8, *c),
            (TyK::F64, V::D(d)) => o.write_c(off as usize, 8, d.to_bits() as u128),
            (TyK::Arr(n, e), V::A(a)) | (TyK::Vec(n, e), V::A(a)) => {
                let s = size(e);
                if s == 1 && *n > 64 && a.iter().all(|x| matches!(x, V::C(0))) {
                    return Ok(());
                }
                for (i, x) in a.iter().enumerate() {
                    self.init(o, off + i as u64 * s, e, x)?;
                }
            }
            (TyK::Struct(f, _), V::A(a)) => {
                for (i, x) in a.iter().enumerate() {
                    self.init(o, off + field_off(t, i), &f[i], x)?;
                }
            }
            (_, V::U) => {}
            x => err!("global init {:?}", x),
        }
        Ok(())
    }
    fn ngl(&self) -> u32 {
        self.m.gl.len() as u32
    }
    fn obj(&mut self, st: &State, addr: u128, n: u64, what: &str) -> R<(Rc<Obj>, usize, u32)> {
        let id = (addr >> 32) as u32;
        let off = (addr & 0xffff_ffff) as u64;
        let o = if id == 0 || id as u64 >= FN_BASE {
            err!("{}: invalid address {:#x} in {}", what, addr, self.whereis(st))
        } else if id <= self.ngl() {
            match st.gov.get(&id) {
                Some(o) => o.clone(),
                None => self.global(id)?,
            }
        } else {
            let k = (id - self.ngl() - 1) as usize;
            if k >= st.objs.len() {
                err!("{}: bad object {:#x}", what, addr)
            }
            st.objs[k].clone()
        };
        if !o.alive || off + n > o.size {
            err!("{}: out of bounds {:#x}+{} size {} alive {} in {}", what, addr, n, o.size, o.alive, self.whereis(st));
        }
        Ok((o, off as usize, id))
    }
    fn objmut<'a>(&mut self, st: &'a mut State, addr: u128, n: u64, what: &str) -> R<(&'a mut Obj, usize)> {
        let id = (addr >> 32) as u32;
        let off = (addr & 0xffff_ffff) as u64;
        if id == 0 || id as u64 >= FN_BASE {
            err!("{}: invalid address {:#x} in {}", what, addr, self.whereis(st))
        }
        let wh = self.ngl();
        let o: &mut Rc<Obj> = if id <= wh {
            if !st.gov.contains_key(&id) {
                if self.m.gl[id as usize - 1].is_const {
                    err!("write to constant {}", self.m.gl[id as usize - 1].name)
                }
                let g = self.global(id)?;
                st.gov.insert(id, g);
            }
            st.gov.get_mut(&id).unwrap()
        } else {
            let k = (id - wh - 1) as usize;
            if k >= st.objs.len() {
                err!("{}: bad object {:#x}", what, addr)
            }
            &mut st.objs[k]
        };
        if !o.alive || off + n > o.size {
            err!("{}: out of bounds write {:#x}+{} size {} alive {}", what, addr, n, o.size, o.alive);
        }
        Ok((Rc::make_mut(o), off as usize))
    }
    pub fn alloc(&mut self, st: &mut State, size: u64) -> u128 {
        let o = Rc::new(Obj::new(size, &self.zero));
        let k = match st.free.pop() {
            Some(k) => {
                st.objs[k as usize] = o;
                k
            }
            None => {
                st.objs.push(o);
                st.objs.len() as u32 - 1
            }
        };
        ((k + self.ngl() + 1) as u128) << 32
    }
    fn dealloc(&mut self, st: &mut State, addr: u128) -> R<()> {
        let id = (addr >> 32) as u32;
        if id <= self.ngl() || (addr & 0xffff_ffff) != 0 {
            err!("dealloc of {:#x}", addr)
        }
        let k = id - self.ngl() - 1;
        if !st.objs[k as usize].alive {
            err!("double free")
        }
        Rc::make_mut(&mut st.objs[k as usize]).alive = false;
        st.objs[k as usize] = Rc::new(Obj { size: 0, pages: vec![], alive: false });
        st.free.push(k);
        Ok(())
    }
    pub fn rd_bytes(&mut self, st: &State, addr: u128, n: usize) -> R<Vec<By>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (o, off, _) = self.obj(st, addr, n as u64, "read")?;
        Ok((0..n).map(|i| o.get(off + i)).collect())
    }
    fn wr_bytes(&mut self, st: &mut State, addr: u128, b: &[By]) -> R<()> {
        if b.is_empty() {
            return Ok(());
        }
        let (o, off) = self.objmut(st, addr, b.len() as u64, "write")?;
        for (i, x) in b.iter().enumerate() {
            o.set(off + i, *x);
        }
        Ok(())
    }
    fn rd_int(&mut self, st: &State, addr: u128, w: u32) -> R<V> {
        let n = ((w + 7) / 8) as usize;
        let (o, off, _) = self.obj(st, addr, n as u64, "load")?;
        if let Some(c) = o.read_c(off, n) {
            return Ok(V::C(c & mask(w)));
        }
        let b: Vec<By> = (0..n).map(|i| o.get(off + i)).collect();
        let v = join(&mut self.ts, &b);
        Ok(match v {
            V::T(t) if self.ts.w(t) > w => {
                let e = self.ts.extract(t, 0, w);
                self.vt(e)
            }
            v => v,
        })
    }
    fn wr_int(&mut self, st: &mut State, addr: u128, w: u32, v: &V) -> R<()> {
        let n = ((w + 7) / 8) as usize;
        match v {
            V::C(c) => {
                let (o, off) = self.objmut(st, addr, n as u64, "store")?;
                o.write_c(off, n, *c);
            }
            V::T(t) => {
                let mut t = *t;
                let bw = n as u32 * 8;
                if self.ts.w(t) < bw {
                    t = self.ts.zext(t, bw);
                }
                if let Some(c) = self.ts.cv(t) {
                    let (o, off) = self.objmut(st, addr, n as u64, "store")?;
                    o.write_c(off, n, c);
                } else {
                    // concrete high bytes stay concrete (small zero-extended values)
                    let hi = self.ts.hi(t);
                    let by: Vec<By> = (0..n)
                        .map(|i| if i > 0 && hi >> (8 * i) == 0 && n < 8 { By::C(0) } else { byte_of(&self.ts, t, i as u32) })
                        .collect();
                    let (o, off) = self.objmut(st, addr, n as u64, "store")?;
                    for (i, b) in by.into_iter().enumerate() {
                        o.set(off + i, b);
                    }
                }
            }
            V::U => {
                let (o, off) = self.objmut(st, addr, n as u64, "store")?;
                o.write_c(off, n, 0);
            }
            x => err!("store {:?}", x),
        }
        Ok(())
    }
    fn load(&mut self, st: &State, addr: u128, t: &Ty) -> R<V> {
        Ok(match &**t {
            TyK::Int(w) => self.rd_int(st, addr, *w)?,
            TyK::Ptr => self.rd_int(st, addr, 64)?,
            TyK::F64 => match self.rd_int(st, addr, 64)? {
                V::C(c) => V::D(f64::from_bits(c as u64)),
                v => v,
            },
            TyK::Arr(n, e) | TyK::Vec(n, e) => {
                if let (TyK::Vec(..), TyK::Int(w)) = (&**t, &**e) {
                    if w % 8 != 0 {
                        err!("load of bit vector");
                    }
                }
                let s = size(e) as u128;
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.load(st, addr + s * i as u128, e)?);
                }
                V::A(Rc::new(v))
            }
            TyK::Struct(f, _) => {
                let mut v = vec![];
                for (i, x) in f.iter().enumerate() {
                    v.push(self.load(st, addr + field_off(t, i) as u128, x)?);
                }
                V::A(Rc::new(v))
            }
            x => err!("load {:?}", x),
        })
    }
    fn store(&mut self, st: &mut State, addr: u128, t: &Ty, v: &V) -> R<()> {
        match &**t {
            TyK::Int(w) => self.wr_int(st, addr, *w, v),
            TyK::Ptr => self.wr_int(st, addr, 64, v),
            TyK::F64 => match v {
                V::D(d) => self.wr_int(st, addr, 64, &V::C(d.to_bits() as u128)),
                v => self.wr_int(st, addr, 64, v),
            },
            TyK::Arr(n, e) | TyK::Vec(n, e) => {
                let s = size(e) as u128;
                match v {
                    V::A(a) => {
                        for i in 0..*n {
                            self.store(st, addr + s * i as u128, e, &a[i as usize])?;
                        }
                        Ok(())
                    }
                    V::U => Ok(()),
                    x => err!("store arr {:?}", x),
                }
            }
            TyK::Struct(f, _) => match v {
                V::A(a) => {
                    for (i, x) in f.iter().enumerate() {
                        self.store(st, addr + field_off(t, i) as u128, x, &a[i])?;
                    }
                    Ok(())
                }
                V::U => Ok(()),
                x => err!("store struct {:?}", x),
            },
            x => err!("store {:?}", x),
        }
    }
    fn copy(&mut self, st: &mut State, d: u128, s: u128, n: u64) -> R<()> {
        if n == 0 || d == s {
            return Ok(());
        }
        let (so, soff, _) = self.obj(st, s, n, "memcpy src")?;
        let (dst, doff) = self.objmut(st, d, n, "memcpy dst")?;
        let n = n as usize;
        if soff % PG == doff % PG && n >= PG {
            // page-wise sharing where aligned
            let mut i = 0;
            while i < n {
                let (a, b) = (soff + i, doff + i);
                if a % PG == 0 && n - i >= PG {
                    dst.pages[b / PG] = so.pages[a / PG].clone();
                    i += PG;
                } else {
                    dst.set(b, so.get(a));
                    i += 1;
                }
            }
            return Ok(());
        }
        let tmp: Vec<By> = (0..n).map(|i| so.get(soff + i)).collect();
        for (i, x) in tmp.iter().enumerate() {
            dst.set(doff + i, *x);
        }
        Ok(())
    }

    // ---------- path conditions ----------
    fn whereis(&self, st: &State) -> String {
        st.fr
            .iter()
            .rev()
            .take(6)
            .map(|f| format!("{}:{}:{}", short(&f.f.name), f.bb, f.ip))
            .collect::<Vec<_>>()
            .join(" < ")
    }
    fn eval(&self, m: &Model, t: T) -> u128 {
        self.ts.eval(t, &m.v, &mut m.cache.borrow_mut())
    }
    fn add_pc(&mut self, st: &mut State, c: T) {
        if c == self.ts.tt || st.pcs.contains(&c) {
            return;
        }
        // split conjunctions
        if let K::And(a, b) = *self.ts.k(c) {
            self.add_pc(st, a);
            self.add_pc(st, b);
            return;
        }
        st.pc.push(c);
        st.pcs.insert(c);
        self.learn(st, c);
        if let K::Eq(a, b) = *self.ts.k(c) {
            if let Some(k) = self.ts.cv(a) {
                st.subst.insert(b, k);
            } else if let Some(k) = self.ts.cv(b) {
                st.subst.insert(a, k);
            }
        }
    }
    fn widen(&mut self, st: &State, t: T) -> T {
        match st.wide.get(&t) {
            Some(x) => *x,
            None => self.ts.zext(t, 128),
        }
    }
    /// A condition holding on this path may say that a 64-bit sum, difference or truncation is exact.
    fn learn(&mut self, st: &mut State, c: T) {
        let K::Not(n) = *self.ts.k(c) else { return };
        let K::Ult(x, y) = *self.ts.k(n) else { return };
        if self.ts.w(x) == 128 {
            // not (2^64-1 < y): the low half of y is y
            if self.ts.cv(x).map_or(false, |k| k <= u64::MAX as u128) {
                let lowt = self.ts.trunc(y, 64);
                if !matches!(*self.ts.k(lowt), K::Const(_)) {
                    st.wide.insert(lowt, y);
                }
            }
            return;
        }
        if self.ts.w(x) != 64 {
            return;
        }
        if let Some(k) = self.ts.cv(x) {
            // y <= k: c*y is exact for c = floor(max/k)
            if k > 0 {
                let c = u64::MAX as u128 / k;
                if c > 1 {
                    let c64 = self.ts.konst(64, c);
                    let c128 = self.ts.konst(128, c);
                    let wy = self.widen(st, y);
                    let (s, w) = (self.ts.mul(c64, y), self.ts.mul(c128, wy));
                    st.wide.entry(s).or_insert(w);
                }
                return;
            }
        }
        // x >= y: x - y is exact; and with x = ~a, so is a + y
        let neg = match self.ts.k(x) {
            K::Lin(k, l) => *k == u64::MAX as u128 && l.iter().all(|(c, _)| *c == u64::MAX as u128),
            _ => false,
        };
        let (wy, s, w);
        if neg {
            let m1 = self.ts.konst(64, u64::MAX as u128);
            let a = self.ts.sub(m1, x);
            let wa = self.widen(st, a);
            wy = self.widen(st, y);
            s = self.ts.add(a, y);
            w = self.ts.add(wa, wy);
        } else {
            let wx = self.widen(st, x);
            wy = self.widen(st, y);
            s = self.ts.sub(x, y);
            w = self.ts.sub(wx, wy);
        }
        if matches!(*self.ts.k(s), K::Lin(..)) && !st.wide.contains_key(&s) {
            st.wide.insert(s, w);
        }
    }
    fn known(&mut self, st: &State, c: T) -> Option<bool> {
        if c == self.ts.tt {
            return Some(true);
        }
        if c == self.ts.ff {
            return Some(false);
        }
        if st.pcs.contains(&c) {
            return Some(true);
        }
        let n = self.ts.not(c);
        if st.pcs.contains(&n) {
            return Some(false);
        }
        if let K::And(a, b) = *self.ts.k(c) {
            match (self.known(st, a), self.known(st, b)) {
                (Some(true), x) => return x,
                (x, Some(true)) => return x,
                (Some(false), _) | (_, Some(false)) => return Some(false),
                _ => {}
            }
        }
        if let K::Not(x) = *self.ts.k(c) {
            if let K::And(..) = *self.ts.k(x) {
                return self.known(st, x).map(|b| !b);
            }
        }
        None
    }
    /// does t contain a product or quotient of two symbolic operands?
    fn nonlin(&mut self, t: T) -> bool {
        if let Some(b) = self.nlm.get(&t) {
            return *b;
        }
        let own = match self.ts.k(t) {
            K::Mul(a, b) | K::UMulOvf(a, b) | K::UDiv(a, b) | K::URem(a, b) => self.ts.cv(*a).is_none() && self.ts.cv(*b).is_none(),
            _ => false,
        };
        let mut r = own;
        if !r {
            for c in self.ts.children(t) {
                if self.nonlin(c) {
                    r = true;
                    break;
                }
            }
        }
        self.nlm.insert(t, r);
        r
    }
    /// The linear part of the path condition alone often decides q, or yields an assignment that (completed with
    /// the path's own model) satisfies everything.
    fn linear_first(&mut self, st: &State, q: Option<T>) -> Option<(Res, Option<Rc<Model>>)> {
        if let Some(q) = q {
            if self.nonlin(q) {
                return None;
            }
        }
        let mut lin = vec![];
        for c in &st.pc {
            if !self.nonlin(*c) {
                lin.push(*c);
            }
        }
        let all_lin = lin.len() == st.pc.len();
        if all_lin {
            return None;
        }
        let (r, m) = self.lv.check(&self.ts, &lin, q);
        match r {
            Res::Unsat => return Some((Res::Unsat, None)),
            Res::Unknown => return None,
            Res::Sat => {}
        }
        let m = m?;
        let mut cand = vec![];
        if let (Some(b), Some(q)) = (&st.model, q) {
            lin.push(q);
            let sl = crate::ints::slice(&self.ts, &lin);
            let vs = crate::ints::vars(&self.ts, &sl);
            let mut v = b.v.clone();
            v.resize(m.len(), None);
            for i in vs {
                v[i as usize] = m[i as usize];
            }
            cand.push(v);
        }
        cand.push(m);
        for v in cand {
            let md = Model { v, cache: RefCell::new(HashMap::new()) };
            if st.pc.iter().all(|c| self.eval(&md, *c) == 1) && q.map_or(true, |c| self.eval(&md, c) == 1) {
                self.quick += 1;
                return Some((Res::Sat, Some(Rc::new(md))));
            }
        }
        None
    }
    /// Solver call with model validation. Returns (result, validated model)
    fn query(&mut self, st: &State, q: Option<T>) -> (Res, Option<Rc<Model>>) {
        if let Some(r) = self.linear_first(st, q) {
            return r;
        }
        let mut mo = None;
        let mut round = 0;
        let mut local = HashSet::new();
        let r = loop {
            let tq = Instant::now();
            let (r, m) = self.sv.check(&self.ts, &st.pc, q);
            if self.conf.verbose && tq.elapsed().as_millis() > 100 {
                eprintln!("SLOW {}ms {:?} round {} at {}: {}", tq.elapsed().as_millis(), r, round, self.whereis(st), q.map_or(String::new(), |q| self.ts.show(q, 6)));
            }
            let v = match m {
                Some(v) => v,
                None => break r,
            };
            let md = Model { v, cache: RefCell::new(HashMap::new()) };
            let bad: Vec<T> = st.pc.iter().copied().chain(q).filter(|c| self.eval(&md, *c) != 1).collect();
            if bad.is_empty() {
                mo = Some(Rc::new(md));
                break r;
            }
            self.spurious += 1;
            round += 1;
            if round > 15 {
                break r;
            }
            // rule out this assignment of the products involved
            let ts = &self.ts;
            let val = |t: T| ts.eval(t, &md.v, &mut *md.cache.borrow_mut());
            if self.sv.refine(ts, &bad, &val, &mut local) == 0 {
                break r;
            }
        };
        if r == Res::Unsat || mo.is_some() {
            return (r, mo);
        }
        let q = match q {
            Some(q) => q,
            None => self.ts.tt,
        };
        let (p, m) = self.hard(st, q);
        if p {
            (Res::Unsat, None)
        } else if m.is_some() {
            (Res::Sat, m)
        } else {
            (Res::Unknown, None)
        }
    }
    /// Which outcomes of c are feasible? Returns models for each.
    fn feasible(&mut self, st: &State, c: T) -> (Option<Option<Rc<Model>>>, Option<Option<Rc<Model>>>) {
        match self.known(st, c) {
            Some(true) => return (Some(st.model.clone()), None),
            Some(false) => return (None, Some(st.model.clone())),
            None => {}
        }
        let nc = self.ts.not(c);
        if let Some(m) = st.model.clone() {
            let v = self.eval(&m, c) == 1;
            let other = if v { nc } else { c };
            let (r, mo) = self.query(st, Some(other));
            let o = if r == Res::Unsat { None } else { Some(mo) };
            if v {
                (Some(Some(m)), o)
            } else {
                (o, Some(Some(m)))
            }
        } else {
            let (r1, m1) = self.query(st, Some(c));
            if r1 == Res::Unsat {
                return (None, Some(None));
            }
            let (r2, m2) = self.query(st, Some(nc));
            (Some(m1), if r2 == Res::Unsat { None } else { Some(m2) })
        }
    }
    fn fork_push(&mut self, st: State) {
        self.forks += 1;
        self.work.push(st);
    }
    /// Decide a symbolic condition: continues with one side, queues the other (re-executing the current instruction).
    fn decide(&mut self, st: &mut State, c: T) -> R<bool> {
        if let Some(b) = self.known(st, c) {
            return Ok(b);
        }
        let nc = self.ts.not(c);
        let (t, f) = self.feasible(st, c);
        match (t, f) {
            (Some(mt), Some(mf)) => {
                let mut o = st.clone();
                self.add_pc(&mut o, nc);
                o.model = mf;
                o.forks += 1;
                self.fork_push(o);
                self.add_pc(st, c);
                st.model = mt;
                st.forks += 1;
                Ok(true)
            }
            (Some(mt), None) => {
                // implied: remember it
                st.pcs.insert(c);
                self.learn(st, c);
                st.model = mt;
                Ok(true)
            }
            (None, Some(mf)) => {
                st.pcs.insert(nc);
                self.learn(st, nc);
                st.model = mf;
                Ok(false)
            }
            (None, None) => Err(Stop::End(End::Killed)),
        }
    }
    fn assume(&mut self, st: &mut State, c: T) -> R<()> {
        match self.known(st, c) {
            Some(true) => return Ok(()),
            Some(false) => return Err(Stop::End(End::Killed)),
            None => {}
        }
        if let Some(m) = st.model.clone() {
            if self.eval(&m, c) == 1 {
                self.add_pc(st, c);
                return Ok(());
            }
        }
        let (r, m) = self.query(st, Some(c));
        if r == Res::Unsat {
            return Err(Stop::End(End::Killed));
        }
        self.add_pc(st, c);
        st.model = m;
        Ok(())
    }
    fn conc(&mut self, st: &mut State, v: &V, w: u32) -> R<u128> {
        let t = match v {
            V::C(c) => return Ok(*c),
            V::U => return Ok(0),
            V::T(t) => *t,
            x => err!("concretize {:?}", x),
        };
        let _ = w;
        if let Some(c) = st.subst.get(&t) {
            return Ok(*c);
        }
        // candidate value
        let val = match st.model.clone() {
            Some(m) => self.eval(&m, t),
            None => {
                let (r, m) = self.query(st, None);
                match m {
                    Some(m) => {
                        let v = self.eval(&m, t);
                        st.model = Some(m);
                        v
                    }
                    None => {
                        if r == Res::Unsat {
                            return Err(Stop::End(End::Killed));
                        }
                        err!("cannot concretize at {}", self.whereis(st))
                    }
                }
            }
        };
        let tw = self.ts.w(t);
        let k = self.ts.konst(tw, val);
        let e = self.ts.eq(t, k);
        if self.decide(st, e)? {
            st.subst.insert(t, val);
            Ok(val)
        } else {
            // decide() keeps the true side whenever feasible
            err!("concretize")
        }
    }
    fn addr(&mut self, st: &mut State, o: &Op) -> R<u128> {
        let v = self.op(st, o);
        match v {
            V::C(c) => Ok(c),
            v => self.conc(st, &v, 64),
        }
    }

    fn input_values(&self, st: &State, m: &Model) -> (Vec<u128>, Vec<String>) {
        let mut v = vec![];
        let mut n = vec![];
        for i in &st.inputs {
            match i {
                Inp::Sym(nm, t) => {
                    v.push(self.eval(m, *t));
                    n.push(nm.clone());
                }
                Inp::Choose(c) => {
                    v.push(*c as u128);
                    n.push("choose".into());
                }
            }
        }
        (v, n)
    }

    fn selected(&self, label: &str) -> bool {
        self.conf.only.is_empty()
            || self.conf.only.iter().any(|p| {
                if let Some(x) = p.strip_prefix('*') {
                    label.ends_with(x)
                } else if let Some(x) = p.strip_suffix('*') {
                    label.starts_with(x)
                } else {
                    label == p
                }
            })
    }
    fn check_assert(&mut self, st: &mut State, c: T, label: &str) -> R<()> {
        if !self.selected(label) {
            return Ok(());
        }
        let e = self.asserts.entry(label.to_string()).or_insert((0, 0));
        if c == self.ts.tt || st.pcs.contains(&c) {
            e.1 += 1;
            return Ok(());
        }
        e.0 += 1;
        // conjunctions: prove conjunct by conjunct (each becomes usable for the next)
        if let K::And(a, b) = *self.ts.k(c) {
            self.asserts.get_mut(label).unwrap().0 -= 1;
            self.check_assert(st, a, label)?;
            self.check_assert(st, b, label)?;
            return Ok(());
        }
        let nc = self.ts.not(c);
        let mut bad: Option<Rc<Model>> = None;
        let mut proved = false;
        if let Some(m) = st.model.clone() {
            if self.eval(&m, c) == 0 {
                bad = Some(m);
            }
        }
        if bad.is_none() {
            let (r, m) = self.query(st, Some(nc));
            match r {
                Res::Unsat => proved = true,
                _ => {
                    bad = m;
                }
            }
        }
        if proved {
            st.pcs.insert(c);
            self.learn(st, c);
            return Ok(());
        }
        if let Some(m) = bad {
            let (inputs, names) = self.input_values(st, &m);
            if self.conf.verbose {
                eprintln!("CEX {} at {}", label, self.whereis(st));
            }
            self.cexs.push(Cex { label: label.into(), inputs, names, validated: true });
            // continue only where the assertion holds
            return self.assume(st, c);
        }
        if self.conf.verbose {
            eprintln!("INCONCLUSIVE {}", self.ts.show(c, 9));
            for x in &st.pc {
                eprintln!("   pc {}", self.ts.show(*x, 7));
            }
        }
        self.inconclusive.push(format!("{} at {}", label, self.whereis(st)));
        self.assume(st, c)
    }

    /// Precise decision procedures for pc /\ q over the conditions connected with q: integer encoding, exact bit-vectors.
    fn hard(&mut self, st: &State, q: T) -> (bool, Option<Rc<Model>>) {
        let mut all = st.pc.clone();
        all.push(q);
        let conds = if q == self.ts.tt { all.clone() } else { crate::ints::slice(&self.ts, &all) };
        let merge = |m: Option<Vec<Option<u128>>>| -> Option<Vec<Option<u128>>> {
            let mut v = m?;
            if let Some(b) = &st.model {
                for (i, x) in v.iter_mut().enumerate() {
                    if x.is_none() {
                        *x = b.v.get(i).copied().flatten();
                    }
                }
            }
            Some(v)
        };
        let (r, m) = crate::ints::solve(&mut self.sv, &mut self.ts, &conds);
        if r == Res::Unsat {
            return (true, None);
        }
        if let Some(m) = self.validated(&all, merge(m)) {
            return (false, Some(m));
        }
        let (r, m) = self.sv.check_exact(&self.ts, &conds);
        if r == Res::Unsat {
            return (true, None);
        }
        if let Some(m) = self.validated(&all, merge(m)) {
            return (false, Some(m));
        }
        (false, None)
    }
    fn validated(&mut self, conds: &[T], m: Option<Vec<Option<u128>>>) -> Option<Rc<Model>> {
        let v = m?;
        let md = Model { v, cache: RefCell::new(HashMap::new()) };
        if conds.iter().all(|c| self.eval(&md, *c) == 1) {
            Some(Rc::new(md))
        } else {
            None
        }
    }

    // ---------- run ----------
    pub fn start(&mut self, entry: &str) {
        let fi = *self.m.funcs.get(entry).unwrap_or_else(|| panic!("no entry {}", entry));
        let f = self.m.func(fi).expect("entry undefined");
        let st = State {
            fr: vec![Frame {
                regs: vec![V::U; f.nregs],
                f,
                bb: 0,
                prev: 0,
                ip: 0,
                ret: None,
                nb: None,
                allocas: vec![],
            }],
            objs: vec![],
            free: vec![],
            gov: HashMap::new(),
            pc: vec![],
            pcs: HashSet::new(),
            model: Some(Rc::new(Model { v: vec![], cache: RefCell::new(HashMap::new()) })),
            inputs: vec![],
            trace: vec![],
            subst: HashMap::new(),
            wide: HashMap::new(),
            hashes: vec![],
            finds: vec![],
            keys: vec![],
            must: None,
            steps: 0,
            forks: 0,
        };
        self.funcs_used.insert(fi);
        self.work.push(st);
        while let Some(st) = self.work.pop() {
            if self.t0.elapsed().as_secs_f64() > self.conf.time_s {
                self.errors.push(format!("time limit: {} states left", self.work.len() + 1));
                break;
            }
            if self.paths >= self.conf.max_paths {
                self.errors.push("path limit".into());
                break;
            }
            if self.cexs.len() >= 4 || self.errors.len() >= 5 || self.inconclusive.len() >= 8 {
                break;
            }
            self.run(st);
        }
    }
    fn run(&mut self, mut st: State) {
        loop {
            let r = self.step(&mut st);
            match r {
                Ok(()) => {
                    if st.steps > self.conf.max_steps {
                        // does not end, as far as can be told: where the call has to succeed this is a failure (the
                        // native run has to confirm it), elsewhere the path stays undecided
                        if st.must.is_some() && self.selected("no-panic(endless)") {
                            self.finish(st, End::Abort("endless".into()));
                        } else {
                            self.inconclusive.push(format!("step limit at {}", self.whereis(&st)));
                        }
                        return;
                    }
                    if st.steps & 0xffff == 0 && self.t0.elapsed().as_secs_f64() > self.conf.time_s {
                        self.errors.push(format!("time limit at {}", self.whereis(&st)));
                        return;
                    }
                }
                Err(Stop::Again) => {}
                Err(Stop::Err(e)) => {
                    if self.conf.verbose {
                        eprintln!("ENGINE ERROR {}", e);
                    }
                    self.errors.push(format!("{} @ {}", e, self.whereis(&st)));
                    self.paths += 1;
                    return;
                }
                Err(Stop::End(e)) => {
                    self.finish(st, e);
                    return;
                }
            }
        }
    }
    fn finish(&mut self, mut st: State, e: End) {
        let nm = match &e {
            End::Ret => "ret".to_string(),
            End::Abort(_) => "abort".to_string(),
            End::Killed => {
                *self.ends.entry("killed".into()).or_insert(0) += 1;
                return;
            }
        };
        if let End::Abort(s) = &e {
            if self.conf.verbose {
                eprintln!("abort path: {} at {}", s, self.whereis(&st));
            }
            if let Some(m) = st.must.clone() {
                let t = self.tv(&m, 1);
                let nt = self.ts.not(t);
                st.must = None;
                if let Err(Stop::Err(x)) = self.check_assert(&mut st, nt, &format!("no-panic({})", s)) {
                    self.errors.push(x);
                }
            }
        }
        self.paths += 1;
        *self.ends.entry(nm.clone()).or_insert(0) += 1;
        for (l, v) in &st.trace {
            if v.is_none() {
                *self.reach.entry(l.clone()).or_insert(0) += 1;
            }
        }
        // sample for native cross-validation
        let n = self.paths;
        let keep = self.samples.len() < self.conf.samples || {
            // reservoir with deterministic hash
            let h = n.wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(self.conf.seed).rotate_left(17);
            h % n < self.conf.samples as u64
        };
        if keep && self.conf.samples > 0 {
            let mut m = st.model.clone();
            if m.is_none() {
                m = self.query(&st, None).1;
            }
            if let Some(m) = m {
                let (inputs, _) = self.input_values(&st, &m);
                let mut tr = vec![];
                for (l, v) in &st.trace {
                    match v {
                        None => tr.push(format!("R {}", l)),
                        Some((_, V::C(c))) => tr.push(format!("L {} {}", l, c)),
                        Some((_, V::T(t))) => tr.push(format!("L {} {}", l, self.eval(&m, *t))),
                        _ => {}
                    }
                }
                let p = Path { end: nm, inputs, trace: tr };
                if self.samples.len() < self.conf.samples {
                    self.samples.push(p);
                } else {
                    let k = (n.wrapping_mul(0xD1B5_4A32_D192_ED03) >> 20) as usize % self.samples.len();
                    self.samples[k] = p;
                }
            }
        }
    }

    fn jump(&mut self, st: &mut State, to: u32) -> R<()> {
        let fr = st.fr.last_mut().unwrap();
        fr.prev = fr.bb;
        fr.bb = to;
        fr.ip = 0;
        let f = fr.f.clone();
        let prev = fr.prev;
        // phis in parallel
        let mut vals: Vec<(u32, V)> = vec![];
        let mut k = 0;
        for i in &f.blocks[to as usize].ins {
            if let I::Phi(d, _, inc) = i {
                let o = inc.iter().find(|x| x.1 == prev).map(|x| &x.0);
                match o {
                    Some(o) => vals.push((*d, self.op(st, o))),
                    None => err!("phi without incoming"),
                }
                k += 1;
            } else {
                break;
            }
        }
        let fr = st.fr.last_mut().unwrap();
        for (d, v) in vals {
            fr.regs[d as usize] = v;
        }
        fr.ip = k;
        Ok(())
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        let (f, bb, ip) = {
            let fr = st.fr.last().unwrap();
            (fr.f.clone(), fr.bb, fr.ip)
        };
        st.steps += 1;
        self.steps += 1;
        let ins = &f.blocks[bb as usize].ins[ip];
        macro_rules! set {
            ($d:expr, $v:expr) => {{
                let v = $v;
                let fr = st.fr.last_mut().unwrap();
                fr.regs[$d as usize] = v;
                fr.ip += 1;
                return Ok(());
            }};
        }
        match ins {
            I::Alloca(d, n) => {
                let a = self.alloc(st, *n);
                let id = (a >> 32) as u32 - self.ngl() - 1;
                st.fr.last_mut().unwrap().allocas.push(id);
                set!(*d, V::C(a))
            }
            I::Load(d, t, a) => {
                let ad = self.addr(st, a)?;
                let v = self.load(st, ad, t)?;
                set!(*d, v)
            }
            I::Store(t, v, a) => {
                let ad = self.addr(st, a)?;
                let v = self.op(st, v);
                self.store(st, ad, t, &v)?;
                st.fr.last_mut().unwrap().ip += 1;
                Ok(())
            }
            I::Gep(d, b, off, idx) => {
                let base = self.op(st, b);
                let mut acc = match base {
                    V::C(c) => V::C((c as i128 + *off as i128) as u128 & mask(64)),
                    V::T(t) => {
                        let k = self.ts.konst(64, *off as i128 as u128);
                        let r = self.ts.add(t, k);
                        self.vt(r)
                    }
                    V::U => V::C(0),
                    x => err!("gep base {:?}", x),
                };
                for (o, w, sc) in idx {
                    let iv = self.op(st, o);
                    acc = match (&acc, &iv) {
                        (V::C(a), V::C(i)) => V::C((*a as i128).wrapping_add(sx(*i, *w).wrapping_mul(*sc as i128)) as u128 & mask(64)),
                        _ => {
                            let a = self.tv(&acc, 64);
                            let mut i = self.tv(&iv, *w);
                            if *w < 64 {
                                i = self.ts.sext(i, 64);
                            }
                            let m = self.ts.mulc(i, *sc as i128 as u128);
                            let r = self.ts.add(a, m);
                            self.vt(r)
                        }
                    };
                }
                set!(*d, acc)
            }
            I::Bin(d, op, t, a, b) => {
                let (x, y) = (self.op(st, a), self.op(st, b));
                let v = self.bin(*op, t, &x, &y)?;
                set!(*d, v)
            }
            I::Icmp(d, p, t, a, b) => {
                let (x, y) = (self.op(st, a), self.op(st, b));
                let v = self.icmp(*p, t, &x, &y)?;
                set!(*d, v)
            }
            I::Fcmp(d, p, a, b) => {
                let (x, y) = (self.op(st, a), self.op(st, b));
                let (x, y) = match (x, y) {
                    (V::D(x), V::D(y)) => (x, y),
                    _ => err!("symbolic float"),
                };
                let r = match p.as_str() {
                    "oeq" | "ueq" => x == y,
                    "one" | "une" => x != y,
                    "olt" | "ult" => x < y,
                    "ole" | "ule" => x <= y,
                    "ogt" | "ugt" => x > y,
                    "oge" | "uge" => x >= y,
                    "uno" => x.is_nan() || y.is_nan(),
                    "ord" => !(x.is_nan() || y.is_nan()),
                    _ => err!("fcmp {}", p),
                };
                set!(*d, V::C(r as u128))
            }
            I::Fneg(d, a) => match self.op(st, a) {
                V::D(x) => set!(*d, V::D(-x)),
                _ => err!("fneg"),
            },
            I::Select(d, t, c, a, b, vec) => {
                let c = self.op(st, c);
                let (x, y) = (self.op(st, a), self.op(st, b));
                if *vec {
                    let e = match &**t {
                        TyK::Vec(_, e) => e.clone(),
                        _ => err!("vselect"),
                    };
                    match (&c, &x, &y) {
                        (V::A(c), V::A(x), V::A(y)) => {
                            let mut r = vec![];
                            for i in 0..c.len() {
                                r.push(self.select(st, &e, &c[i], &x[i], &y[i])?);
                            }
                            set!(*d, V::A(Rc::new(r)))
                        }
                        _ => err!("vselect"),
                    }
                }
                let v = self.select(st, t, &c, &x, &y)?;
                set!(*d, v)
            }
            I::Br(l) => self.jump(st, *l),
            I::CondBr(c, a, b) => {
                let v = self.op(st, c);
                let r = match v {
                    V::C(c) => c & 1 == 1,
                    V::T(t) => self.decide(st, t)?,
                    _ => err!("br on undef"),
                };
                self.jump(st, if r { *a } else { *b })
            }
            I::Switch(w, v, def, cs) => {
                let x = self.op(st, v);
                match x {
                    V::C(c) => {
                        let l = cs.iter().find(|k| k.0 == c & mask(*w)).map(|k| k.1).unwrap_or(*def);
                        self.jump(st, l)
                    }
                    V::T(t) => {
                        if let Some(c) = st.subst.get(&t).copied() {
                            let l = cs.iter().find(|k| k.0 == c).map(|k| k.1).unwrap_or(*def);
                            return self.jump(st, l);
                        }
                        for (k, l) in cs {
                            let kt = self.ts.konst(*w, *k);
                            let e = self.ts.eq(t, kt);
                            if self.decide(st, e)? {
                                return self.jump(st, *l);
                            }
                        }
                        self.jump(st, *def)
                    }
                    _ => err!("switch undef"),
                }
            }
            I::Phi(..) => err!("phi in middle"),
            I::Call(d, rt, callee, args, nb) => self.call(st, *d, rt, callee, args, *nb),
            I::Ret(v) => {
                let rv = match v {
                    Some((_, o)) => Some(self.op(st, o)),
                    None => None,
                };
                let fr = st.fr.pop().unwrap();
                for k in fr.allocas {
                    st.objs[k as usize] = Rc::new(Obj { size: 0, pages: vec![], alive: false });
                    st.free.push(k);
                }
                if st.fr.is_empty() {
                    return Err(Stop::End(End::Ret));
                }
                let top = st.fr.last_mut().unwrap();
                if let (Some((d, _)), Some(v)) = (fr.ret, rv) {
                    top.regs[d as usize] = v;
                }
                match fr.nb {
                    Some(l) => self.jump(st, l),
                    None => {
                        top.ip += 1;
                        Ok(())
                    }
                }
            }
            I::ExtractV(d, a, ix) => {
                let mut v = self.op(st, a);
                for i in ix {
                    v = match v {
                        V::A(x) => x[*i as usize].clone(),
                        V::U => V::U,
                        x => err!("extractvalue {:?}", x),
                    };
                }
                set!(*d, v)
            }
            I::InsertV(d, t, a, b, ix) => {
                let mut v = self.op(st, a);
                let x = self.op(st, b);
                if let V::U = v {
                    v = self.m.zero(t);
                }
                let v = insv(&v, &x, ix);
                set!(*d, v)
            }
            I::Cast(d, c, t, a, t2) => {
                let x = self.op(st, a);
                if let (Cast::Zext, V::T(x), Some(128)) = (*c, &x, ity(t2)) {
                    if let Some(w) = st.wide.get(x) {
                        let w = *w;
                        let v = self.vt(w);
                        set!(*d, v)
                    }
                }
                let v = self.cast(*c, t, &x, t2)?;
                set!(*d, v)
            }
            I::Freeze(d, a) => {
                let v = self.op(st, a);
                let v = if let V::U = v { V::C(0) } else { v };
                set!(*d, v)
            }
            I::Rmw(d, o, t, a, v) => {
                let ad = self.addr(st, a)?;
                let old = self.load(st, ad, t)?;
                let v = self.op(st, v);
                let n = match o.as_str() {
                    "xchg" => v,
                    "add" => self.bin(Bin::Add, t, &old, &v)?,
                    "sub" => self.bin(Bin::Sub, t, &old, &v)?,
                    "and" => self.bin(Bin::And, t, &old, &v)?,
                    "or" => self.bin(Bin::Or, t, &old, &v)?,
                    "xor" => self.bin(Bin::Xor, t, &old, &v)?,
                    x => err!("atomicrmw {}", x),
                };
                self.store(st, ad, t, &n)?;
                set!(*d, old)
            }
            I::CmpXchg(d, t, a, c, n) => {
                let ad = self.addr(st, a)?;
                let old = self.load(st, ad, t)?;
                let c = self.op(st, c);
                let n = self.op(st, n);
                match (&old, &c) {
                    (V::C(x), V::C(y)) => {
                        if x == y {
                            self.store(st, ad, t, &n)?;
                        }
                        let r = V::A(Rc::new(vec![old.clone(), V::C((x == y) as u128)]));
                        set!(*d, r)
                    }
                    _ => err!("cmpxchg symbolic"),
                }
            }
            I::Fence => {
                st.fr.last_mut().unwrap().ip += 1;
                Ok(())
            }
            I::Unreachable => err!("reached unreachable"),
            I::ExtElt(d, _, a, i) => {
                let (x, i) = (self.op(st, a), self.op(st, i));
                match (x, i) {
                    (V::A(v), V::C(i)) => set!(*d, v[i as usize].clone()),
                    _ => err!("extractelement"),
                }
            }
            I::InsElt(d, t, a, b, i) => {
                let (x, y, i) = (self.op(st, a), self.op(st, b), self.op(st, i));
                let x = if let V::U = x { self.m.zero(t) } else { x };
                match (x, i) {
                    (V::A(v), V::C(i)) => {
                        let mut v = (*v).clone();
                        v[i as usize] = y;
                        set!(*d, V::A(Rc::new(v)))
                    }
                    _ => err!("insertelement"),
                }
            }
            I::Shuffle(d, t, a, b, m) => {
                let (x, y) = (self.op(st, a), self.op(st, b));
                let x = if let V::U = x { self.m.zero(t) } else { x };
                let y = if let V::U = y { self.m.zero(t) } else { y };
                match (x, y) {
                    (V::A(x), V::A(y)) => {
                        let n = x.len() as i64;
                        let r = m.iter().map(|k| if *k < n { x[*k as usize].clone() } else { y[(*k - n) as usize].clone() }).collect();
                        set!(*d, V::A(Rc::new(r)))
                    }
                    _ => err!("shuffle"),
                }
            }
            I::Unsup(s) => err!("unsupported: {}", s),
        }
    }

    fn select(&mut self, st: &mut State, t: &Ty, c: &V, x: &V, y: &V) -> R<V> {
        match c {
            V::C(c) => Ok(if c & 1 == 1 { x.clone() } else { y.clone() }),
            V::T(ct) => {
                if let TyK::Int(w) = &**t {
                    if let Some(b) = self.known(st, *ct) {
                        return Ok(if b { x.clone() } else { y.clone() });
                    }
                    let (a, b) = (self.tv(x, *w), self.tv(y, *w));
                    let r = self.ts.ite(*ct, a, b);
                    return Ok(self.vt(r));
                }
                let b = self.decide(st, *ct)?;
                Ok(if b { x.clone() } else { y.clone() })
            }
            _ => err!("select on undef"),
        }
    }

    fn bin(&mut self, op: Bin, t: &Ty, x: &V, y: &V) -> R<V> {
        if let TyK::Vec(n, e) = &**t {
            let z = self.m.zero(t);
            let (x, y) = (if let V::U = x { z.clone() } else { x.clone() }, if let V::U = y { z } else { y.clone() });
            if let (V::A(a), V::A(b)) = (&x, &y) {
                let mut r = vec![];
                for i in 0..*n as usize {
                    r.push(self.bin(op, e, &a[i], &b[i])?);
                }
                return Ok(V::A(Rc::new(r)));
            }
        }
        if let (V::D(a), V::D(b)) = (x, y) {
            return Ok(V::D(match op {
                Bin::FAdd => a + b,
                Bin::FSub => a - b,
                Bin::FMul => a * b,
                Bin::FDiv => a / b,
                _ => err!("float op"),
            }));
        }
        let w = match ity(t) {
            Some(w) if w <= 128 => w,
            _ => err!("bin type {:?}", t),
        };
        if let (V::C(a), V::C(b)) = (x, y) {
            let m = mask(w);
            let (a, b) = (*a, *b);
            return Ok(V::C(
                match op {
                    Bin::Add => a.wrapping_add(b),
                    Bin::Sub => a.wrapping_sub(b),
                    Bin::Mul => a.wrapping_mul(b),
                    Bin::UDiv => {
                        if b == 0 {
                            err!("division by zero")
                        }
                        a / b
                    }
                    Bin::URem => {
                        if b == 0 {
                            err!("division by zero")
                        }
                        a % b
                    }
                    Bin::SDiv => {
                        if b == 0 {
                            err!("division by zero")
                        }
                        sx(a, w).wrapping_div(sx(b, w)) as u128
                    }
                    Bin::SRem => {
                        if b == 0 {
                            err!("division by zero")
                        }
                        sx(a, w).wrapping_rem(sx(b, w)) as u128
                    }
                    Bin::And => a & b,
                    Bin::Or => a | b,
                    Bin::Xor => a ^ b,
                    Bin::Shl => {
                        if b >= w as u128 {
                            0
                        } else {
                            a << b
                        }
                    }
                    Bin::LShr => {
                        if b >= w as u128 {
                            0
                        } else {
                            a >> b
                        }
                    }
                    Bin::AShr => {
                        let s = b.min(127) as u32;
                        (sx(a, w) >> s) as u128
                    }
                    _ => err!("int op {:?}", op),
                } & m,
            ));
        }
        let (a, b) = (self.tv(x, w), self.tv(y, w));
        let ts = &mut self.ts;
        let r = match op {
            Bin::Add => ts.add(a, b),
            Bin::Sub => ts.sub(a, b),
            Bin::Mul => ts.mul(a, b),
            Bin::UDiv => ts.udiv(a, b),
            Bin::URem => ts.urem(a, b),
            Bin::And => ts.and(a, b),
            Bin::Or => ts.or(a, b),
            Bin::Xor => ts.xor(a, b),
            Bin::Shl => ts.shl(a, b),
            Bin::LShr => ts.lshr(a, b),
            Bin::AShr => ts.ashr(a, b),
            Bin::SDiv | Bin::SRem => {
                let h = 1u128 << (w - 1);
                if ts.hi(a) < h && ts.hi(b) < h {
                    if op == Bin::SDiv {
                        ts.udiv(a, b)
                    } else {
                        ts.urem(a, b)
                    }
                } else {
                    err!("signed division on possibly negative operands")
                }
            }
            _ => err!("op {:?}", op),
        };
        Ok(self.vt(r))
    }

    fn icmp(&mut self, p: Pred, t: &Ty, x: &V, y: &V) -> R<V> {
        if let TyK::Vec(n, e) = &**t {
            if let (V::A(a), V::A(b)) = (x, y) {
                let mut r = vec![];
                for i in 0..*n as usize {
                    r.push(self.icmp(p, e, &a[i], &b[i])?);
                }
                return Ok(V::A(Rc::new(r)));
            }
            err!("vector icmp {:?} {:?}", x, y);
        }
        let w = match ity(t) {
            Some(w) => w,
            None => err!("icmp {:?}", t),
        };
        if let (V::C(a), V::C(b)) = (x, y) {
            let (a, b) = (*a, *b);
            let (sa, sb) = (sx(a, w), sx(b, w));
            let r = match p {
                Pred::Eq => a == b,
                Pred::Ne => a != b,
                Pred::Ult => a < b,
                Pred::Ule => a <= b,
                Pred::Ugt => a > b,
                Pred::Uge => a >= b,
                Pred::Slt => sa < sb,
                Pred::Sle => sa <= sb,
                Pred::Sgt => sa > sb,
                Pred::Sge => sa >= sb,
            };
            return Ok(V::C(r as u128));
        }
        let (a, b) = (self.tv(x, w), self.tv(y, w));
        let ts = &mut self.ts;
        let r = match p {
            Pred::Eq => ts.eq(a, b),
            Pred::Ne => {
                let e = ts.eq(a, b);
                ts.not(e)
            }
            Pred::Ult => ts.ult(a, b),
            Pred::Ugt => ts.ult(b, a),
            Pred::Ule => {
                let e = ts.ult(b, a);
                ts.not(e)
            }
            Pred::Uge => {
                let e = ts.ult(a, b);
                ts.not(e)
            }
            Pred::Slt => ts.slt(a, b),
            Pred::Sgt => ts.slt(b, a),
            Pred::Sle => {
                let e = ts.slt(b, a);
                ts.not(e)
            }
            Pred::Sge => {
                let e = ts.slt(a, b);
                ts.not(e)
            }
        };
        Ok(self.vt(r))
    }

    fn pack(&mut self, t: &Ty, v: &V) -> R<(V, u32)> {
        // value as one integer
        match (&**t, v) {
            (TyK::Vec(n, e), V::A(a)) => {
                let ew = match ity(e) {
                    Some(w) => w,
                    None => err!("pack"),
                };
                let tot = ew * *n as u32;
                if tot > 128 {
                    err!("pack width {}", tot)
                }
                if a.iter().all(|x| matches!(x, V::C(_))) {
                    let mut r = 0u128;
                    for (i, x) in a.iter().enumerate() {
                        if let V::C(c) = x {
                            r |= (c & mask(ew)) << (ew * i as u32);
                        }
                    }
                    return Ok((V::C(r), tot));
                }
                let mut acc = self.tv(&a[a.len() - 1], ew);
                for x in a[..a.len() - 1].iter().rev() {
                    let l = self.tv(x, ew);
                    acc = self.ts.concat(acc, l);
                }
                Ok((self.vt(acc), tot))
            }
            (TyK::Int(w), v) => Ok((v.clone(), *w)),
            (TyK::Ptr, v) => Ok((v.clone(), 64)),
            (TyK::F64, V::D(d)) => Ok((V::C(d.to_bits() as u128), 64)),
            x => err!("pack {:?}", x),
        }
    }
    fn cast(&mut self, c: Cast, t: &Ty, x: &V, t2: &Ty) -> R<V> {
        if let V::U = x {
            return Ok(self.m.undef(t2));
        }
        if let (Cast::Bitcast, TyK::Vec(n1, e1), TyK::Vec(n2, e2), V::A(a)) = (c, &**t, &**t2, x) {
            if let (Some(w1), Some(w2)) = (ity(e1), ity(e2)) {
                let mut r = vec![];
                if w2 >= w1 && w2 % w1 == 0 && w2 <= 128 {
                    let g = (w2 / w1) as usize;
                    for i in 0..*n2 as usize {
                        let part = &a[i * g..(i + 1) * g];
                        if part.iter().all(|v| matches!(v, V::U)) {
                            r.push(V::U);
                            continue;
                        }
                        let part: Vec<V> = part.iter().map(|v| if let V::U = v { V::C(0) } else { v.clone() }).collect();
                        let pt: Ty = Rc::new(TyK::Vec(g as _, e1.clone()));
                        r.push(self.pack(&pt, &V::A(Rc::new(part)))?.0);
                    }
                    return Ok(V::A(Rc::new(r)));
                }
                if w1 > w2 && w1 % w2 == 0 {
                    for v in a[..*n1 as usize].iter() {
                        for i in 0..w1 / w2 {
                            r.push(match v {
                                V::U => V::U,
                                V::C(c) => V::C((c >> (w2 * i)) & mask(w2)),
                                v => {
                                    let tt = self.tv(v, w1);
                                    let e = self.ts.extract(tt, w2 * i, w2);
                                    self.vt(e)
                                }
                            });
                        }
                    }
                    return Ok(V::A(Rc::new(r)));
                }
            }
        }
        if c == Cast::Bitcast {
            let (v, tot) = self.pack(t, x)?;
            return Ok(match &**t2 {
                TyK::Vec(n, e) => {
                    let ew = match ity(e) {
                        Some(w) => w,
                        None => err!("bitcast"),
                    };
                    let mut r = vec![];
                    for i in 0..*n as u32 {
                        r.push(match &v {
                            V::C(c) => V::C((c >> (ew * i)) & mask(ew)),
                            v => {
                                let tt = self.tv(v, tot);
                                let e = self.ts.extract(tt, ew * i, ew);
                                self.vt(e)
                            }
                        });
                    }
                    V::A(Rc::new(r))
                }
                TyK::F64 => match v {
                    V::C(c) => V::D(f64::from_bits(c as u64)),
                    _ => err!("symbolic float"),
                },
                _ => v,
            });
        }
        if let (TyK::Vec(_, e), TyK::Vec(_, e2), V::A(a)) = (&**t, &**t2, x) {
            let mut r = vec![];
            for v in a.iter() {
                r.push(self.cast(c, e, v, e2)?);
            }
            return Ok(V::A(Rc::new(r)));
        }
        match c {
            Cast::UiToFp | Cast::SiToFp => match x {
                V::C(v) => {
                    let w = ity(t).unwrap();
                    return Ok(V::D(if c == Cast::UiToFp { *v as f64 } else { sx(*v, w) as f64 }));
                }
                _ => err!("symbolic float conversion"),
            },
            Cast::FpToUi | Cast::FpToSi => match x {
                V::D(d) => {
                    let w = ity(t2).unwrap();
                    return Ok(V::C(if c == Cast::FpToUi { *d as u128 } else { (*d as i128) as u128 } & mask(w)));
                }
                _ => err!("symbolic float conversion"),
            },
            _ => {}
        }
        let (w, w2) = match (ity(t), ity(t2)) {
            (Some(a), Some(b)) => (a, b),
            _ => err!("cast {:?} {:?}", t, t2),
        };
        if let V::C(v) = x {
            return Ok(V::C(match c {
                Cast::Sext => sx(*v, w) as u128 & mask(w2),
                _ => *v & mask(w2),
            }));
        }
        let a = self.tv(x, w);
        let r = match c {
            Cast::Zext => self.ts.zext(a, w2),
            Cast::Sext => self.ts.sext(a, w2),
            Cast::Trunc => self.ts.trunc(a, w2),
            _ => {
                if w2 < w {
                    self.ts.trunc(a, w2)
                } else {
                    self.ts.zext(a, w2)
                }
            }
        };
        Ok(self.vt(r))
    }

    // ---------- calls ----------
    fn icpt(&mut self, fi: usize) -> Icpt {
        if let Some(x) = self.icache.get(&fi) {
            return *x;
        }
        let n = self.m.fnames[fi].as_str();
        let x = match n {
            "vp_sym" => Icpt::Sym,
            "vp_key" => Icpt::Key,
            "vp_fixed" => Icpt::Fixed,
            "vp_choose" => Icpt::Choose,
            "vp_param" => Icpt::Param,
            "vp_assume" => Icpt::Assume,
            "vp_assert" => Icpt::Assert,
            "vp_reach" => Icpt::Reach,
            "vp_log" => Icpt::Log,
            "vp_must" => Icpt::Must,
            "vp_ite" => Icpt::Ite,
            "vp_and" => Icpt::And,
            "vp_or" => Icpt::Or,
            "vp_bytes_eq" => Icpt::BytesEq,
            "__rust_alloc" => Icpt::Alloc,
            "__rust_alloc_zeroed" => Icpt::AllocZ,
            "__rust_dealloc" => Icpt::Dealloc,
            "__rust_realloc" => Icpt::Realloc,
            "bcmp" => Icpt::Bcmp,
            "memcmp" => Icpt::Memcmp,
            "strlen" => Icpt::Strlen,
            "abort" | "rust_begin_unwind" | "__rust_start_panic" => Icpt::Abort,
            _ => {
                if n.starts_with("llvm.") {
                    Icpt::Intrinsic
                } else if n.contains("6Pubkey22create_program_address17h") {
                    Icpt::PdaCreate
                } else if n.contains("6Pubkey20find_program_address17h") {
                    Icpt::PdaFind
                } else if n.contains("6Pubkey24try_find_program_address17h") {
                    Icpt::PdaTryFind
                } else if n.contains("5alloc3fmt6format") {
                    Icpt::Fmt
                } else if n.contains("4core9panicking")
                    || n.contains("handle_alloc_error")
                    || n.contains("capacity_overflow")
                    || n.contains("3std9panicking")
                    || n.contains("unwrap_failed")
                    || n.contains("expect_failed")
                    || n.contains("slice_start_index")
                    || n.contains("slice_end_index")
                    || n.contains("slice_index_order")
                    || n.contains("len_mismatch_fail")
                    || n.contains("panic_already")
                    || n.contains("panic_fmt")
                    || n.contains("3std7process5abort")
                    || n.contains("10abort_internal")
                {
                    if n.contains("panic_count") || n.contains("is_zero_slow") || n.contains("12panic_count") {
                        Icpt::None
                    } else {
                        Icpt::Abort
                    }
                } else {
                    Icpt::None
                }
            }
        };
        self.icache.insert(fi, x);
        x
    }
    fn str_at(&mut self, st: &State, p: &V, l: &V) -> R<String> {
        match (p, l) {
            (V::C(p), V::C(l)) => {
                let b = self.rd_bytes(st, *p, *l as usize)?;
                Ok(b.iter()
                    .map(|x| match x {
                        By::C(c) => *c as char,
                        _ => '?',
                    })
                    .collect())
            }
            _ => err!("symbolic string"),
        }
    }
    fn next(&mut self, st: &mut State, d: Option<u32>, v: V, nb: Option<u32>) -> R<()> {
        let fr = st.fr.last_mut().unwrap();
        if let Some(d) = d {
            fr.regs[d as usize] = v;
        }
        match nb {
            Some(l) => self.jump(st, l),
            None => {
                fr.ip += 1;
                Ok(())
            }
        }
    }
    fn bytes_eq_term(&mut self, a: &[By], b: &[By], cuts: &[usize]) -> T {
        let mut acc = self.ts.tt;
        let mut i = 0;
        let n = a.len();
        let mut cs: Vec<usize> = cuts.to_vec();
        cs.push(n);
        cs.sort();
        let mut ci = 0;
        while i < n {
            while cs[ci] <= i {
                ci += 1;
            }
            let mut e = cs[ci].min(i + 16);
            // fast path on identical bytes
            if a[i] == b[i] {
                i += 1;
                // keep chunk alignment relative to source terms
                while i < e && a[i] == b[i] {
                    i += 1;
                }
                continue;
            }
            // extend to natural chunk: stop at alignment of symbolic source so terms stay whole
            if let (By::C(x), By::C(y)) = (a[i], b[i]) {
                if x != y {
                    return self.ts.ff;
                }
            }
            // try to start chunk at a term boundary
            let mut j = i + 1;
            while j < e {
                let brk = |v: &[By]| matches!(v[j], By::S(_, 0));
                if brk(a) || brk(b) {
                    e = j;
                    break;
                }
                j += 1;
            }
            let (x, y) = (join(&mut self.ts, &a[i..e]), join(&mut self.ts, &b[i..e]));
            let w = 8 * (e - i) as u32;
            let (x, y) = (self.tv(&x, w), self.tv(&y, w));
            let q = self.ts.eq(x, y);
            acc = self.ts.and(acc, q);
            if acc == self.ts.ff {
                return acc;
            }
            i = e;
        }
        acc
    }
    fn mem_eq(&mut self, st: &State, a: u128, b: u128, n: usize) -> R<T> {
        if n == 0 || a == b {
            return Ok(self.ts.tt);
        }
        let (ao, ai, _) = self.obj(st, a, n as u64, "bcmp")?;
        let (bo, bi, _) = self.obj(st, b, n as u64, "bcmp")?;
        if n <= 64 {
            let x: Vec<By> = (0..n).map(|i| ao.get(ai + i)).collect();
            let y: Vec<By> = (0..n).map(|i| bo.get(bi + i)).collect();
            return Ok(self.bytes_eq_term(&x, &y, &[]));
        }
        // large: skip identical shared pages
        let mut acc = self.ts.tt;
        let mut i = 0;
        while i < n {
            let (p, q) = (ai + i, bi + i);
            if p % PG == q % PG {
                let len = (PG - p % PG).min(n - i);
                if Rc::ptr_eq(&ao.pages[p / PG], &bo.pages[q / PG]) {
                    i += len;
                    continue;
                }
            }
            let len = (16 - p % 16).min(n - i);
            let x: Vec<By> = (0..len).map(|k| ao.get(p + k)).collect();
            let y: Vec<By> = (0..len).map(|k| bo.get(q + k)).collect();
            let t = self.bytes_eq_term(&x, &y, &[]);
            acc = self.ts.and(acc, t);
            if acc == self.ts.ff {
                return Ok(acc);
            }
            i += len;
        }
        Ok(acc)
    }
    /// register a hash application and return its index
    fn hash(&mut self, st: &mut State, bytes: Vec<By>, cuts: Vec<usize>) -> R<usize> {
        for (i, h) in st.hashes.iter().enumerate() {
            if *h.bytes == bytes {
                return Ok(i);
            }
        }
        let k = st.hashes.len();
        let lo = self.ts.var(&format!("pda{}lo", k), 128);
        let hi = self.ts.var(&format!("pda{}hi", k), 128);
        let cv = self.ts.var(&format!("pda{}curve", k), 1);
        let rec = HashRec { bytes: Rc::new(bytes), cuts: Rc::new(cuts), out: (lo, hi), curve: cv };
        let mut ax = vec![];
        for h in st.hashes.clone().iter() {
            let e1 = self.ts.eq(h.out.0, lo);
            let e2 = self.ts.eq(h.out.1, hi);
            let oe = self.ts.and(e1, e2);
            let ie = if h.bytes.len() == rec.bytes.len() {
                let mut c = (*rec.cuts).clone();
                c.extend(h.cuts.iter());
                self.bytes_eq_term(&h.bytes, &rec.bytes, &c)
            } else {
                self.ts.ff
            };
            if ie == self.ts.ff {
                // distinct inputs: distinct outputs; a stronger (solver-friendlier) form: low halves differ
                let n = self.ts.not(e1);
                ax.push(n);
            } else {
                // ie <=> oe ; not ie => low halves differ
                let x = self.ts.not(ie);
                let y = self.ts.or(x, oe);
                ax.push(y);
                let ne = self.ts.not(e1);
                let y = self.ts.or(ie, ne);
                ax.push(y);
                let ce = self.ts.eq(h.curve, cv);
                let y = self.ts.or(x, ce);
                ax.push(y);
            }
        }
        // no derived address falls into the block the harness takes its fixed addresses from (bytes 1..15 all 0x5a)
        let mid = self.ts.extract(lo, 8, 120);
        let block = self.ts.konst(120, u128::from_le_bytes([0x5a; 16]) >> 8);
        let e = self.ts.eq(mid, block);
        ax.push(self.ts.not(e));
        for (kl, _) in st.keys.clone() {
            let e = self.ts.eq(kl, lo);
            let n = self.ts.not(e);
            ax.push(n);
        }
        st.hashes.push(rec);
        for a in ax {
            self.assume(st, a)?;
        }
        Ok(k)
    }
    fn seeds(&mut self, st: &State, p: u128, n: u128) -> R<(Vec<By>, Vec<usize>)> {
        let mut b = vec![];
        let mut cuts = vec![];
        for i in 0..n {
            let (q, l) = (self.rd_int(st, p + 16 * i, 64)?, self.rd_int(st, p + 16 * i + 8, 64)?);
            match (q, l) {
                (V::C(q), V::C(l)) => {
                    b.extend(self.rd_bytes(st, q, l as usize)?);
                    cuts.push(b.len());
                }
                _ => err!("symbolic seeds"),
            }
        }
        Ok((b, cuts))
    }

    fn call(&mut self, st: &mut State, d: Option<u32>, rt: &Ty, callee: &Op, args: &[(Ty, Op)], nb: Option<u32>) -> R<()> {
        let cv = self.op(st, callee);
        let ca = self.conc(st, &cv, 64)?;
        let id = (ca >> 32) as u64;
        if id < FN_BASE || ca & 0xffff_ffff != 0 {
            err!("call to {:#x}", ca)
        }
        let fi = (id - FN_BASE) as usize;
        let ic = self.icpt(fi);
        if ic == Icpt::None {
            if st.fr.len() > 200 {
                err!("stack overflow")
            }
            let f = match self.m.func(fi) {
                Some(f) => f,
                None => err!("call to undefined external {}", self.m.fnames[fi]),
            };
            self.funcs_used.insert(fi);
            let mut regs = vec![V::U; f.nregs];
            for (i, (r, _)) in f.params.iter().enumerate() {
                regs[*r as usize] = self.op(st, &args[i].1);
            }
            st.fr.push(Frame { f, regs, bb: 0, prev: 0, ip: 0, ret: d.map(|d| (d, 0)), nb, allocas: vec![] });
            return Ok(());
        }
        let a: Vec<V> = args.iter().map(|x| self.op(st, &x.1)).collect();
        let name = self.m.fnames[fi].clone();
        let v = match ic {
            Icpt::Intrinsic => {
                if name == "llvm.trap" {
                    return Err(Stop::End(End::Abort("trap".into())));
                }
                self.intrinsic(st, &name, rt, args, &a)?
            }
            Icpt::Sym => {
                // vp_sym(name_ptr, name_len, out, nbytes, bits)
                let nm = self.str_at(st, &a[0], &a[1])?;
                let (out, nb_, bits) = (self.conc(st, &a[2], 64)?, self.conc(st, &a[3], 32)? as u32, self.conc(st, &a[4], 32)? as u32);
                let t = self.ts.var(&nm, bits);
                st.inputs.push(Inp::Sym(nm, t));
                let z = self.ts.zext(t, nb_ * 8);
                self.wr_int(st, out, nb_ * 8, &V::T(z))?;
                V::U
            }
            Icpt::Key => {
                // vp_key(name_ptr, name_len, out32): fresh 32-byte address, different from every derived address
                let nm = self.str_at(st, &a[0], &a[1])?;
                let out = self.conc(st, &a[2], 64)?;
                let lo = self.ts.var(&format!("{}.lo", nm), 128);
                let hi = self.ts.var(&format!("{}.hi", nm), 128);
                st.inputs.push(Inp::Sym(format!("{}.lo", nm), lo));
                st.inputs.push(Inp::Sym(format!("{}.hi", nm), hi));
                self.wr_int(st, out, 128, &V::T(lo))?;
                self.wr_int(st, out + 16, 128, &V::T(hi))?;
                for h in st.hashes.clone() {
                    let e = self.ts.eq(h.out.0, lo);
                    let n = self.ts.not(e);
                    self.assume(st, n)?;
                }
                st.keys.push((lo, hi));
                V::U
            }
            Icpt::Fixed => {
                // vp_fixed(in32): a well-known address, different from every derived address
                let p = self.conc(st, &a[0], 64)?;
                let (l, h) = (self.rd_int(st, p, 128)?, self.rd_int(st, p + 16, 128)?);
                let (lo, hi) = (self.tv(&l, 128), self.tv(&h, 128));
                st.keys.push((lo, hi));
                V::U
            }
            Icpt::Choose => {
                let n = self.conc(st, &a[0], 32)?;
                // fork n ways: the current state takes 0, clones take the rest
                for k in (1..n).rev() {
                    let mut o = st.clone();
                    o.inputs.push(Inp::Choose(k as u32));
                    let fr = o.fr.last_mut().unwrap();
                    fr.regs[d.unwrap() as usize] = V::C(k);
                    match nb {
                        Some(l) => self.jump(&mut o, l)?,
                        None => fr.ip += 1,
                    }
                    self.fork_push(o);
                }
                st.inputs.push(Inp::Choose(0));
                V::C(0)
            }
            Icpt::Param => {
                let i = self.conc(st, &a[0], 32)? as usize;
                V::C(self.conf.params.get(i).copied().unwrap_or(0) as u128)
            }
            Icpt::Assume => {
                let t = self.tv(&a[0], 1);
                self.assume(st, t)?;
                V::U
            }
            Icpt::Assert => {
                let nm = self.str_at(st, &a[1], &a[2])?;
                let t = self.tv(&a[0], 1);
                self.check_assert(st, t, &nm)?;
                V::U
            }
            Icpt::Reach => {
                let nm = self.str_at(st, &a[0], &a[1])?;
                st.trace.push((nm, None));
                V::U
            }
            Icpt::Log => {
                let nm = self.str_at(st, &a[0], &a[1])?;
                st.trace.push((nm, Some((0, a[2].clone()))));
                V::U
            }
            Icpt::Must => {
                st.must = match &a[0] {
                    V::C(0) => None,
                    v => Some(v.clone()),
                };
                V::U
            }
            Icpt::Ite => {
                let c = self.tv(&a[0], 1);
                let (x, y) = (self.tv(&a[1], 64), self.tv(&a[2], 64));
                let r = match self.known(st, c) {
                    Some(true) => x,
                    Some(false) => y,
                    None => self.ts.ite(c, x, y),
                };
                self.vt(r)
            }
            Icpt::And => {
                let (x, y) = (self.tv(&a[0], 1), self.tv(&a[1], 1));
                let r = self.ts.and(x, y);
                self.vt(r)
            }
            Icpt::Or => {
                let (x, y) = (self.tv(&a[0], 1), self.tv(&a[1], 1));
                let r = self.ts.or(x, y);
                self.vt(r)
            }
            Icpt::BytesEq => {
                let (x, y, n) = (self.conc(st, &a[0], 64)?, self.conc(st, &a[1], 64)?, self.conc(st, &a[2], 64)?);
                let t = self.mem_eq(st, x, y, n as usize)?;
                self.vt(t)
            }
            Icpt::Alloc | Icpt::AllocZ => {
                let n = self.conc(st, &a[0], 64)?;
                if n > 1 << 26 {
                    err!("huge allocation {}", n)
                }
                V::C(self.alloc(st, n as u64))
            }
            Icpt::Dealloc => {
                let p = self.conc(st, &a[0], 64)?;
                self.dealloc(st, p)?;
                V::U
            }
            Icpt::Realloc => {
                let (p, old, new) = (self.conc(st, &a[0], 64)?, self.conc(st, &a[1], 64)?, self.conc(st, &a[3], 64)?);
                let q = self.alloc(st, new as u64);
                self.copy(st, q, p, (old.min(new)) as u64)?;
                self.dealloc(st, p)?;
                V::C(q)
            }
            Icpt::Bcmp => {
                let (x, y, n) = (self.conc(st, &a[0], 64)?, self.conc(st, &a[1], 64)?, self.conc(st, &a[2], 64)?);
                let t = self.mem_eq(st, x, y, n as usize)?;
                let nt = self.ts.not(t);
                let r = self.ts.zext(nt, 32);
                self.vt(r)
            }
            Icpt::Memcmp => {
                let (x, y, n) = (self.conc(st, &a[0], 64)?, self.conc(st, &a[1], 64)?, self.conc(st, &a[2], 64)?);
                let mut r = self.ts.konst(32, 0);
                let n = n as usize;
                let bx = self.rd_bytes(st, x, n)?;
                let by = self.rd_bytes(st, y, n)?;
                let mut e = n;
                while e > 0 {
                    let s = e.saturating_sub(16);
                    let mut p: Vec<By> = bx[s..e].to_vec();
                    let mut q: Vec<By> = by[s..e].to_vec();
                    p.reverse();
                    q.reverse();
                    if p != q {
                        let (u, v) = (join(&mut self.ts, &p), join(&mut self.ts, &q));
                        let w = 8 * (e - s) as u32;
                        let (u, v) = (self.tv(&u, w), self.tv(&v, w));
                        let eq = self.ts.eq(u, v);
                        let lt = self.ts.ult(u, v);
                        let (m1, p1) = (self.ts.konst(32, mask(32)), self.ts.konst(32, 1));
                        let i = self.ts.ite(lt, m1, p1);
                        r = self.ts.ite(eq, r, i);
                    }
                    e = s;
                }
                self.vt(r)
            }
            Icpt::Strlen => {
                let p = self.conc(st, &a[0], 64)?;
                let mut n = 0u128;
                loop {
                    match self.rd_int(st, p + n, 8)? {
                        V::C(0) => break,
                        V::C(_) => n += 1,
                        _ => err!("strlen symbolic"),
                    }
                }
                V::C(n)
            }
            Icpt::Fmt => {
                // alloc::fmt::format: messages are outside every property; yields an empty string
                let out = self.conc(st, &a[0], 64)?;
                for i in 0..3 {
                    self.wr_int(st, out + 8 * i, 64, &V::C(0))?;
                }
                V::U
            }
            Icpt::Abort => return Err(Stop::End(End::Abort(short(&name)))),
            Icpt::PdaCreate => {
                let (out, sp, sl, pid) =
                    (self.conc(st, &a[0], 64)?, self.conc(st, &a[1], 64)?, self.conc(st, &a[2], 64)?, self.conc(st, &a[3], 64)?);
                let (mut b, cuts) = self.seeds(st, sp, sl)?;
                b.extend(self.rd_bytes(st, pid, 32)?);
                let h = self.hash(st, b, cuts)?;
                let rec = st.hashes[h].clone();
                // fork point must not repeat the hash registration: registration is idempotent (same bytes)
                if self.decide(st, rec.curve)? {
                    self.wr_int(st, out, 8, &V::C(1))?;
                    self.wr_int(st, out + 1, 8, &V::C(1))?;
                } else {
                    self.wr_int(st, out, 8, &V::C(0))?;
                    self.wr_int(st, out + 1, 128, &V::T(rec.out.0))?;
                    self.wr_int(st, out + 17, 128, &V::T(rec.out.1))?;
                }
                V::U
            }
            Icpt::PdaFind | Icpt::PdaTryFind => {
                let (out, sp, sl, pid) =
                    (self.conc(st, &a[0], 64)?, self.conc(st, &a[1], 64)?, self.conc(st, &a[2], 64)?, self.conc(st, &a[3], 64)?);
                let (sb, mut cuts) = self.seeds(st, sp, sl)?;
                let pb = self.rd_bytes(st, pid, 32)?;
                let mut key = sb.clone();
                key.extend(pb.iter());
                let mut found = None;
                for f in &st.finds {
                    if *f.bytes == key {
                        found = Some(f.clone());
                    }
                }
                let fr = match found {
                    Some(f) => f,
                    None => {
                        let bump = self.ts.var(&format!("bump{}", st.finds.len()), 8);
                        for f in st.finds.clone() {
                            if f.bytes.len() == key.len() {
                                let e = self.bytes_eq_term(&f.bytes, &key, &cuts);
                                let ne = self.ts.not(e);
                                let be = self.ts.eq(f.bump, bump);
                                let x = self.ts.or(ne, be);
                                self.assume(st, x)?;
                            }
                        }
                        let mut b = sb.clone();
                        b.push(By::S(bump, 0));
                        cuts.push(b.len());
                        b.extend(pb.iter());
                        let h = self.hash(st, b, cuts)?;
                        let c = st.hashes[h].curve;
                        let nc = self.ts.not(c);
                        self.assume(st, nc)?;
                        let f = FindRec { bytes: Rc::new(key), bump, h };
                        st.finds.push(f.clone());
                        f
                    }
                };
                let rec = st.hashes[fr.h].clone();
                let off = if ic == Icpt::PdaTryFind {
                    self.wr_int(st, out, 8, &V::C(1))?;
                    1
                } else {
                    0
                };
                self.wr_int(st, out + off, 128, &V::T(rec.out.0))?;
                self.wr_int(st, out + off + 16, 128, &V::T(rec.out.1))?;
                self.wr_int(st, out + off + 32, 8, &V::T(fr.bump))?;
                V::U
            }
            Icpt::Nop => V::C(0),
            Icpt::None => unreachable!(),
        };
        self.next(st, d, v, nb)
    }

    fn intrinsic(&mut self, st: &mut State, name: &str, rt: &Ty, args: &[(Ty, Op)], a: &[V]) -> R<V> {
        let parts: Vec<&str> = name.split('.').collect();
        let base = parts[1];
        let w = args.first().and_then(|x| ity(&x.0)).unwrap_or(64);
        let pair = |v: V, o: V| V::A(Rc::new(vec![v, o]));
        Ok(match base {
            "lifetime" | "assume" | "experimental" | "donothing" | "prefetch" | "x86" | "invariant" | "sideeffect" | "dbg" => V::U,
            "expect" => a[0].clone(),
            "is" => V::C(0),
            "memcpy" | "memmove" => {
                let (d, s, n) = (self.conc(st, &a[0], 64)?, self.conc(st, &a[1], 64)?, self.conc(st, &a[2], 64)?);
                self.copy(st, d, s, n as u64)?;
                V::U
            }
            "memset" => {
                let (d, n) = (self.conc(st, &a[0], 64)?, self.conc(st, &a[2], 64)?);
                if n > 0 {
                    let by = match &a[1] {
                        V::C(c) => By::C(*c as u8),
                        V::T(t) => By::S(*t, 0),
                        _ => By::C(0),
                    };
                    let zero = self.zero.clone();
                    let (o, off) = self.objmut(st, d, n as u64, "memset")?;
                    let mut i = 0usize;
                    let n = n as usize;
                    while i < n {
                        if by == By::C(0) && (off + i) % PG == 0 && n - i >= PG {
                            o.pages[(off + i) / PG] = zero.clone();
                            i += PG;
                        } else {
                            o.set(off + i, by);
                            i += 1;
                        }
                    }
                }
                V::U
            }
            "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" => {
                if parts[2] == "sat" {
                    let (x, y) = (self.tv(&a[0], w), self.tv(&a[1], w));
                    let r = match base {
                        "uadd" => {
                            let o = self.ts.uadd_ovf(x, y);
                            let s = self.ts.add(x, y);
                            let m = self.ts.konst(w, mask(w));
                            self.ts.ite(o, m, s)
                        }
                        "usub" => {
                            let o = self.ts.ult(x, y);
                            let s = self.ts.sub(x, y);
                            let z = self.ts.konst(w, 0);
                            self.ts.ite(o, z, s)
                        }
                        _ => err!("intrinsic {}", name),
                    };
                    return Ok(self.vt(r));
                }
                if let (V::C(x), V::C(y)) = (&a[0], &a[1]) {
                    let m = mask(w);
                    let (x, y) = (*x, *y);
                    let (r, o) = match base {
                        "uadd" => {
                            let (r, o) = x.overflowing_add(y);
                            (r & m, o || r > m)
                        }
                        "usub" => (x.wrapping_sub(y) & m, x < y),
                        "umul" => {
                            let p = U256::mul(x, y);
                            (p.l & m, p.h != 0 || p.l > m)
                        }
                        _ => {
                            let (sxx, syy) = (sx(x, w), sx(y, w));
                            let r = match base {
                                "sadd" => sxx.checked_add(syy),
                                "ssub" => sxx.checked_sub(syy),
                                _ => sxx.checked_mul(syy),
                            };
                            match r {
                                Some(r) => (r as u128 & m, sx(r as u128 & m, w) != r),
                                None => err!("128-bit signed overflow"),
                            }
                        }
                    };
                    return Ok(pair(V::C(r), V::C(o as u128)));
                }
                let (x, y) = (self.tv(&a[0], w), self.tv(&a[1], w));
                let (r, o) = match base {
                    "uadd" => (self.ts.add(x, y), self.ts.uadd_ovf(x, y)),
                    "usub" => (self.ts.sub(x, y), self.ts.ult(x, y)),
                    "umul" => (self.ts.mul(x, y), self.ts.umul_ovf(x, y)),
                    _ => err!("intrinsic {} on symbols", name),
                };
                pair(self.vt(r), self.vt(o))
            }
            "umax" | "umin" | "smax" | "smin" => {
                let t = args[0].0.clone();
                if let TyK::Vec(..) = &*t {
                    err!("vector {}", name)
                }
                let p = match base {
                    "umax" => Pred::Ugt,
                    "umin" => Pred::Ult,
                    "smax" => Pred::Sgt,
                    _ => Pred::Slt,
                };
                let c = self.icmp(p, &t, &a[0], &a[1])?;
                self.select(st, &t, &c, &a[0], &a[1])?
            }
            "bswap" => {
                let n = (w / 8) as usize;
                match &a[0] {
                    V::C(c) => V::C(c.swap_bytes() >> (128 - w)),
                    V::T(t) => {
                        let b: Vec<By> = (0..n).rev().map(|i| By::S(*t, i as u8)).collect();
                        join(&mut self.ts, &b)
                    }
                    _ => V::C(0),
                }
            }
            "ctlz" | "cttz" | "ctpop" => match &a[0] {
                V::C(c) => V::C(match base {
                    "ctlz" => c.leading_zeros() - (128 - w),
                    "cttz" => c.trailing_zeros().min(w),
                    _ => c.count_ones(),
                } as u128),
                v => {
                    let c = self.conc(st, v, w)?;
                    V::C(match base {
                        "ctlz" => c.leading_zeros() - (128 - w),
                        "cttz" => c.trailing_zeros().min(w),
                        _ => c.count_ones(),
                    } as u128)
                }
            },
            "fshl" | "fshr" => {
                let s = (self.conc(st, &a[2], w)? % w as u128) as u32;
                let (x, y) = (self.tv(&a[0], w), self.tv(&a[1], w));
                let s = if base == "fshl" { s } else { (w - s) % w };
                let r = if s == 0 {
                    if base == "fshl" {
                        x
                    } else {
                        y
                    }
                } else {
                    let h = self.ts.extract(x, 0, w - s);
                    let l = self.ts.extract(y, w - s, s);
                    self.ts.concat(h, l)
                };
                self.vt(r)
            }
            "abs" => {
                let v = match &a[0] {
                    V::C(c) => sx(*c, w).unsigned_abs() & mask(w),
                    _ => err!("abs"),
                };
                V::C(v)
            }
            "fptoui" => match &a[0] {
                V::D(d) => {
                    let rw = ity(rt).unwrap();
                    V::C((*d as u128).min(mask(rw)))
                }
                _ => err!("float"),
            },
            "vector" => {
                // llvm.vector.reduce.add/or/and/xor
                let (t, v) = (&args[0].0, &a[0]);
                let e = match &**t {
                    TyK::Vec(_, e) => e.clone(),
                    _ => err!("{}", name),
                };
                let op = match parts[3] {
                    "add" => Bin::Add,
                    "or" => Bin::Or,
                    "and" => Bin::And,
                    "xor" => Bin::Xor,
                    _ => err!("{}", name),
                };
                match v {
                    V::A(x) => {
                        let mut r = x[0].clone();
                        for y in &x[1..] {
                            r = self.bin(op, &e, &r, y)?;
                        }
                        r
                    }
                    _ => err!("{}", name),
                }
            }
            "load" => {
                // llvm.load.relative
                let (p, o) = (self.conc(st, &a[0], 64)?, self.conc(st, &a[1], 64)?);
                match self.rd_int(st, p + o, 32)? {
                    V::C(c) => V::C((p as i128 + sx(c, 32)) as u128 & mask(64)),
                    _ => err!("load.relative"),
                }
            }
            _ => err!("intrinsic {}", name),
        })
    }
}

fn insv(v: &V, x: &V, ix: &[u32]) -> V {
    if ix.is_empty() {
        return x.clone();
    }
    match v {
        V::A(a) => {
            let mut n = (**a).clone();
            n[ix[0] as usize] = insv(&n[ix[0] as usize], x, &ix[1..]);
            V::A(Rc::new(n))
        }
        _ => panic!("insertvalue"),
    }
}

/// readable form of a mangled Rust name
pub fn short(n: &str) -> String {
    if let Some(r) = n.strip_prefix("_ZN") {
        let mut out = vec![];
        let mut s = r;
        loop {
            let k = s.find(|c: char| !c.is_ascii_digit()).unwrap_or(0);
            if k == 0 {
                break;
            }
            let l: usize = s[..k].parse().unwrap_or(0);
            if s.len() < k + l {
                break;
            }
            let p = &s[k..k + l];
            if !(p.len() == 17 && p.starts_with('h')) {
                out.push(p.replace("$LT$", "<").replace("$GT$", ">").replace("$u20$", " ").replace("$C$", ",").replace("$RF$", "&").replace("..", "::"));
            }
            s = &s[k + l..];
        }
        return out.join("::");
    }
    n.to_string()
}
