//! Parser for the subset of textual LLVM IR (LLVM 18, opaque pointers) that rustc/opt produce here.
use std::collections::HashMap;
use std::rc::Rc;

pub type Ty = Rc<TyK>;
#[derive(Debug)]
pub enum TyK {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Ty),
    Struct(Vec<Ty>, bool),
    Vec(u64, Ty),
    Label,
    Meta,
    Opaque,
}

#[derive(Clone, Debug)]
pub enum V {
    C(u128),
    T(u32),
    A(Rc<Vec<V>>),
    D(f64),
    U,
}

#[derive(Clone, Debug)]
pub enum Op {
    R(u32),
    K(V),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    FAdd,
    FSub,
    FMul,
    FDiv,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast {
    Zext,
    Sext,
    Trunc,
    PtrToInt,
    IntToPtr,
    Bitcast,
    UiToFp,
    SiToFp,
    FpToUi,
    FpToSi,
}

#[derive(Debug)]
pub enum I {
    Alloca(u32, u64),
    Load(u32, Ty, Op),
    Store(Ty, Op, Op),
    /// dest, base, const offset, [(index, index width, scale)]
    Gep(u32, Op, i64, Vec<(Op, u32, i64)>),
    Bin(u32, Bin, Ty, Op, Op),
    Icmp(u32, Pred, Ty, Op, Op),
    Fcmp(u32, String, Op, Op),
    Select(u32, Ty, Op, Op, Op, bool),
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(u32, Op, u32, Vec<(u128, u32)>),
    Phi(u32, Ty, Vec<(Op, u32)>),
    Call(Option<u32>, Ty, Op, Vec<(Ty, Op)>, Option<u32>),
    Ret(Option<(Ty, Op)>),
    ExtractV(u32, Op, Vec<u32>),
    InsertV(u32, Ty, Op, Op, Vec<u32>),
    Cast(u32, Cast, Ty, Op, Ty),
    Freeze(u32, Op),
    Rmw(u32, String, Ty, Op, Op),
    CmpXchg(u32, Ty, Op, Op, Op),
    Fence,
    Unreachable,
    ExtElt(u32, Ty, Op, Op),
    InsElt(u32, Ty, Op, Op, Op),
    Shuffle(u32, Ty, Op, Op, Vec<i64>),
    Fneg(u32, Op),
    Unsup(String),
}

#[derive(Debug)]
pub struct Block {
    pub ins: Vec<I>,
}
#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub nparams: usize,
    pub params: Vec<(u32, Ty)>,
    pub nregs: usize,
    pub blocks: Vec<Block>,
    pub idx: usize,
}

pub struct Global {
    pub name: String,
    pub def: Option<String>, // text after '=' when it has an initializer
    pub ty: Option<Ty>,
    pub is_const: bool,
}

pub struct Module {
    pub lines: Vec<String>,
    pub types: HashMap<String, String>,
    pub tcache: HashMap<String, Ty>,
    pub funcs: HashMap<String, usize>,       // name -> function index
    pub fnames: Vec<String>,                 // index -> name
    pub fdef: Vec<Option<(usize, usize)>>,   // line range of body when defined
    pub fparsed: Vec<Option<Rc<Func>>>,
    pub globals: HashMap<String, usize>,
    pub gl: Vec<Global>,
    pub aliases: HashMap<String, String>,
}

pub const FN_BASE: u64 = 0x4000_0000;
pub fn fn_addr(i: usize) -> u128 {
    ((FN_BASE + i as u64) as u128) << 32
}
pub fn gl_addr(i: usize) -> u128 {
    ((i as u64 + 1) as u128) << 32
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tk {
    W(String),  // word / keyword / number
    L(String),  // %name
    G(String),  // @name
    S(Vec<u8>), // c"..."
    Q(String),  // "..."
    M(String),  // !...
    P(char),
    E, // end
}

pub fn lex(s: &str) -> Vec<Tk> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut v = vec![];
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        if c == b' ' || c == b'\t' || c == b'\n' {
            i += 1;
            continue;
        }
        if c == b';' {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
            continue;
        }
        if c == b'%' || c == b'@' {
            let nm;
            if b.get(i + 1) == Some(&b'"') {
                let e = s[i + 2..].find('"').unwrap() + i + 2;
                nm = s[i + 2..e].to_string();
                i = e + 1;
            } else {
                let mut j = i + 1;
                while j < b.len() && idc(b[j]) {
                    j += 1;
                }
                nm = s[i + 1..j].to_string();
                i = j;
            }
            v.push(if c == b'%' { Tk::L(nm) } else { Tk::G(nm) });
            continue;
        }
        if c == b'c' && b.get(i + 1) == Some(&b'"') {
            let mut j = i + 2;
            let mut d = vec![];
            while b[j] != b'"' {
                if b[j] == b'\\' {
                    if b[j + 1] == b'\\' {
                        d.push(b'\\');
                        j += 2;
                    } else {
                        d.push(u8::from_str_radix(&s[j + 1..j + 3], 16).unwrap());
                        j += 3;
                    }
                } else {
                    d.push(b[j]);
                    j += 1;
                }
            }
            v.push(Tk::S(d));
            i = j + 1;
            continue;
        }
        if c == b'"' {
            let e = s[i + 1..].find('"').unwrap() + i + 1;
            v.push(Tk::Q(s[i + 1..e].to_string()));
            i = e + 1;
            continue;
        }
        if c == b'!' {
            let mut j = i + 1;
            while j < b.len() && idc(b[j]) {
                j += 1;
            }
            v.push(Tk::M(s[i + 1..j].to_string()));
            i = j;
            continue;
        }
        if c == b'.' && s[i..].starts_with("...") {
            v.push(Tk::W("...".into()));
            i += 3;
            continue;
        }
        if idc(c) || c == b'+' {
            let mut j = i + 1;
            while j < b.len() && (idc(b[j]) || b[j] == b'+') {
                j += 1;
            }
            v.push(Tk::W(s[i..j].to_string()));
            i = j;
            continue;
        }
        if c == b'#' {
            let mut j = i + 1;
            while j < b.len() && idc(b[j]) {
                j += 1;
            }
            i = j;
            continue; // attribute group reference: ignored
        }
        v.push(Tk::P(c as char));
        i += 1;
    }
    v
}

pub struct Ps<'a> {
    pub t: &'a [Tk],
    pub i: usize,
}
impl<'a> Ps<'a> {
    pub fn pk(&self) -> &Tk {
        self.t.get(self.i).unwrap_or(&Tk::E)
    }
    pub fn pk2(&self, k: usize) -> &Tk {
        self.t.get(self.i + k).unwrap_or(&Tk::E)
    }
    pub fn nx(&mut self) -> Tk {
        let x = self.pk().clone();
        self.i += 1;
        x
    }
    pub fn is(&self, c: char) -> bool {
        *self.pk() == Tk::P(c)
    }
    pub fn eat(&mut self, c: char) -> bool {
        if self.is(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    pub fn need(&mut self, c: char) {
        if !self.eat(c) {
            panic!("expected {:?} at {:?} in {:?}", c, &self.t[self.i.min(self.t.len())..], self.t);
        }
    }
    pub fn isw(&self, w: &str) -> bool {
        matches!(self.pk(), Tk::W(x) if x == w)
    }
    pub fn eatw(&mut self, w: &str) -> bool {
        if self.isw(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    pub fn skip_parens(&mut self) {
        self.need('(');
        let mut d = 1;
        while d > 0 {
            match self.nx() {
                Tk::P('(') => d += 1,
                Tk::P(')') => d -= 1,
                Tk::E => panic!("unbalanced"),
                _ => {}
            }
        }
    }
}

pub fn round(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}
pub fn align(t: &TyK) -> u64 {
    match t {
        TyK::Int(w) => {
            if *w <= 8 {
                1
            } else if *w <= 16 {
                2
            } else if *w <= 32 {
                4
            } else if *w <= 64 {
                8
            } else {
                16
            }
        }
        TyK::Ptr | TyK::F64 => 8,
        TyK::F32 => 4,
        TyK::Arr(_, e) => align(e),
        TyK::Struct(f, p) => {
            if *p {
                1
            } else {
                f.iter().map(|x| align(x)).max().unwrap_or(1)
            }
        }
        TyK::Vec(..) => size(t).next_power_of_two(),
        _ => 1,
    }
}
/// alloc size in bytes
pub fn size(t: &TyK) -> u64 {
    match t {
        TyK::Int(w) => round(((*w as u64) + 7) / 8, align(t)),
        TyK::Ptr | TyK::F64 => 8,
        TyK::F32 => 4,
        TyK::Arr(n, e) => n * size(e),
        TyK::Struct(f, p) => {
            let mut o = 0;
            for x in f {
                if !*p {
                    o = round(o, align(x));
                }
                o += size(x);
            }
            if *p {
                o
            } else {
                round(o, align(t))
            }
        }
        TyK::Vec(n, e) => {
            let bits = match &**e {
                TyK::Int(w) => *w as u64,
                x => size(x) * 8,
            };
            let b = (n * bits + 7) / 8;
            b.next_power_of_two()
        }
        _ => 0,
    }
}
pub fn field_off(t: &TyK, i: usize) -> u64 {
    match t {
        TyK::Struct(f, p) => {
            let mut o = 0;
            for (k, x) in f.iter().enumerate() {
                if !*p {
                    o = round(o, align(x));
                }
                if k == i {
                    return o;
                }
                o += size(x);
            }
            panic!("field")
        }
        TyK::Arr(_, e) | TyK::Vec(_, e) => i as u64 * size(e),
        _ => panic!("field_off"),
    }
}

const PATTRS: &[&str] = &[
    "noundef", "nonnull", "noalias", "nocapture", "readonly", "writeonly", "readnone", "zeroext", "signext", "inreg",
    "returned", "nofree", "nest", "immarg", "swiftself", "swifterror", "allocptr", "allocalign", "sret", "byval", "byref",
    "dereferenceable", "dereferenceable_or_null", "align", "range", "captures", "noext", "writable", "dead_on_unwind",
    "inalloca", "preallocated", "elementtype", "initializes", "nofpclass",
];

impl Module {
    pub fn load(path: &str) -> Module {
        let txt = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{}: {}", path, e));
        let mut lines: Vec<String> = txt.lines().map(|x| x.to_string()).collect();
        lines.shrink_to_fit();
        let mut m = Module {
            lines: vec![],
            types: HashMap::new(),
            tcache: HashMap::new(),
            funcs: HashMap::new(),
            fnames: vec![],
            fdef: vec![],
            fparsed: vec![],
            globals: HashMap::new(),
            gl: vec![],
            aliases: HashMap::new(),
        };
        let name_after = |l: &str, c: char| -> Option<(String, usize)> {
            let p = l.find(c)?;
            let r = &l[p + 1..];
            if let Some(r2) = r.strip_prefix('"') {
                let e = r2.find('"')?;
                Some((r2[..e].to_string(), p + 3 + e))
            } else {
                let e = r.find(|x: char| !(x.is_ascii_alphanumeric() || "_.$-".contains(x))).unwrap_or(r.len());
                Some((r[..e].to_string(), p + 1 + e))
            }
        };
        let mut i = 0;
        while i < lines.len() {
            let l = &lines[i];
            if l.starts_with('%') {
                let (n, e) = name_after(l, '%').unwrap();
                let rest = l[e..].trim_start().trim_start_matches('=').trim();
                let rest = rest.strip_prefix("type").unwrap().trim();
                m.types.insert(n, rest.to_string());
            } else if l.starts_with('@') {
                let (n, e) = name_after(l, '@').unwrap();
                let rest = l[e..].trim_start().trim_start_matches('=').trim().to_string();
                let toks: Vec<&str> = rest.split_whitespace().take(6).collect();
                if toks.contains(&"alias") {
                    if let Some((tn, _)) = name_after(&rest, '@') {
                        m.aliases.insert(n, tn);
                    }
                } else {
                    let is_const = toks.contains(&"constant");
                    m.globals.insert(n.clone(), m.gl.len());
                    m.gl.push(Global { name: n, def: Some(rest), ty: None, is_const });
                }
            } else if l.starts_with("define ") || l.starts_with("declare ") {
                let (n, _) = name_after(l, '@').unwrap();
                let idx = m.fnames.len();
                let def = if l.starts_with("define ") {
                    let s = i;
                    while lines[i] != "}" {
                        i += 1;
                    }
                    Some((s, i))
                } else {
                    None
                };
                m.funcs.insert(n.clone(), idx);
                m.fnames.push(n);
                m.fdef.push(def);
                m.fparsed.push(None);
            }
            i += 1;
        }
        m.lines = lines;
        m
    }

    pub fn ty(&mut self, p: &mut Ps) -> Ty {
        let mut t: Ty = match p.nx() {
            Tk::W(w) => {
                if w == "void" {
                    Rc::new(TyK::Void)
                } else if w == "ptr" {
                    Rc::new(TyK::Ptr)
                } else if w == "double" {
                    Rc::new(TyK::F64)
                } else if w == "float" {
                    Rc::new(TyK::F32)
                } else if w == "label" {
                    Rc::new(TyK::Label)
                } else if w == "metadata" || w == "token" {
                    Rc::new(TyK::Meta)
                } else if w == "opaque" {
                    Rc::new(TyK::Opaque)
                } else if let Some(n) = w.strip_prefix('i').and_then(|x| x.parse::<u32>().ok()) {
                    Rc::new(TyK::Int(n))
                } else {
                    panic!("type {:?} in {:?}", w, p.t)
                }
            }
            Tk::L(n) => self.named(&n),
            Tk::P('[') => {
                let n = match p.nx() {
                    Tk::W(w) => w.parse::<u64>().unwrap(),
                    x => panic!("{:?}", x),
                };
                assert!(p.eatw("x"));
                let e = self.ty(p);
                p.need(']');
                Rc::new(TyK::Arr(n, e))
            }
            Tk::P('{') => {
                let mut f = vec![];
                while !p.is('}') {
                    f.push(self.ty(p));
                    p.eat(',');
                }
                p.need('}');
                Rc::new(TyK::Struct(f, false))
            }
            Tk::P('<') => {
                if p.eat('{') {
                    let mut f = vec![];
                    while !p.is('}') {
                        f.push(self.ty(p));
                        p.eat(',');
                    }
                    p.need('}');
                    p.need('>');
                    Rc::new(TyK::Struct(f, true))
                } else {
                    let n = match p.nx() {
                        Tk::W(w) => w.parse::<u64>().unwrap(),
                        x => panic!("{:?}", x),
                    };
                    assert!(p.eatw("x"));
                    let e = self.ty(p);
                    p.need('>');
                    Rc::new(TyK::Vec(n, e))
                }
            }
            x => panic!("type tok {:?} in {:?}", x, p.t),
        };
        // ptr addrspace(..) not expected; function type suffix "(...)" only in call position and handled there
        if let Tk::W(w) = p.pk() {
            if w == "addrspace" {
                p.nx();
                p.skip_parens();
            }
        }
        if let TyK::Opaque = *t {
            t = Rc::new(TyK::Opaque);
        }
        t
    }
    fn named(&mut self, n: &str) -> Ty {
        if let Some(t) = self.tcache.get(n) {
            return t.clone();
        }
        let s = self.types.get(n).unwrap_or_else(|| panic!("unknown type %{}", n)).clone();
        let tk = lex(&s);
        let mut p = Ps { t: &tk, i: 0 };
        let t = self.ty(&mut p);
        self.tcache.insert(n.to_string(), t.clone());
        t
    }

    fn sym_addr(&mut self, n: &str) -> u128 {
        let mut n = n.to_string();
        while let Some(a) = self.aliases.get(&n) {
            n = a.clone();
        }
        if let Some(i) = self.funcs.get(&n) {
            return fn_addr(*i);
        }
        if let Some(i) = self.globals.get(&n) {
            return gl_addr(*i);
        }
        panic!("unknown symbol @{}", n)
    }

    /// constant of type ty
    pub fn konst(&mut self, p: &mut Ps, ty: &Ty) -> V {
        match p.nx() {
            Tk::W(w) => match w.as_str() {
                "true" => V::C(1),
                "false" => V::C(0),
                "null" => V::C(0),
                "undef" | "poison" => self.undef(ty),
                "zeroinitializer" => self.zero(ty),
                "getelementptr" => {
                    while let Tk::W(_) = p.pk() {
                        p.nx(); // inbounds etc.
                        if p.is('(') && !matches!(p.pk(), Tk::P('(')) {
                            break;
                        }
                    }
                    p.need('(');
                    let bt = self.ty(p);
                    p.need(',');
                    let pt = self.ty(p);
                    let b = self.konst(p, &pt);
                    let mut off: i128 = 0;
                    let mut cur = bt.clone();
                    let mut first = true;
                    while p.eat(',') {
                        p.eatw("inrange");
                        let it = self.ty(p);
                        let iv = self.konst(p, &it);
                        let iw = match &*it {
                            TyK::Int(w) => *w,
                            _ => 64,
                        };
                        let x = match iv {
                            V::C(c) => sx(c, iw),
                            _ => panic!("gep const"),
                        };
                        if first {
                            off += x * size(&cur) as i128;
                            first = false;
                        } else {
                            off += match &*cur.clone() {
                                TyK::Struct(f, _) => {
                                    let o = field_off(&cur, x as usize) as i128;
                                    cur = f[x as usize].clone();
                                    o
                                }
                                TyK::Arr(_, e) | TyK::Vec(_, e) => {
                                    let o = x * size(e) as i128;
                                    cur = e.clone();
                                    o
                                }
                                _ => panic!(),
                            };
                        }
                    }
                    p.need(')');
                    match b {
                        V::C(c) => V::C((c as i128 + off) as u128 & (u64::MAX as u128)),
                        _ => panic!(),
                    }
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "addrspacecast" | "trunc" | "zext" => {
                    p.need('(');
                    let t1 = self.ty(p);
                    let v = self.konst(p, &t1);
                    assert!(p.eatw("to"));
                    let t2 = self.ty(p);
                    p.need(')');
                    match (v, &*t2) {
                        (V::C(c), TyK::Int(w)) => V::C(c & crate::term::mask(*w)),
                        (v, _) => v,
                    }
                }
                "sub" | "add" | "mul" | "and" | "or" | "xor" | "shl" => {
                    while let Tk::W(_) = p.pk() {
                        p.nx();
                    }
                    p.need('(');
                    let t1 = self.ty(p);
                    let a = self.konst(p, &t1);
                    p.need(',');
                    let t2 = self.ty(p);
                    let b = self.konst(p, &t2);
                    p.need(')');
                    let wd = match &*t1 {
                        TyK::Int(w) => *w,
                        _ => 64,
                    };
                    match (a, b) {
                        (V::C(a), V::C(b)) => V::C(
                            match w.as_str() {
                                "sub" => a.wrapping_sub(b),
                                "add" => a.wrapping_add(b),
                                "mul" => a.wrapping_mul(b),
                                "and" => a & b,
                                "or" => a | b,
                                "xor" => a ^ b,
                                _ => a << b,
                            } & crate::term::mask(wd),
                        ),
                        _ => panic!(),
                    }
                }
                _ => match &**ty {
                    TyK::Int(wd) => {
                        let x = if let Some(n) = w.strip_prefix('-') {
                            let n: u128 = n.parse().unwrap();
                            n.wrapping_neg()
                        } else {
                            w.parse::<u128>().unwrap_or_else(|_| panic!("int const {:?} in {:?}", w, p.t))
                        };
                        V::C(x & crate::term::mask(*wd))
                    }
                    TyK::F64 | TyK::F32 => {
                        if let Some(h) = w.strip_prefix("0x") {
                            V::D(f64::from_bits(u64::from_str_radix(h, 16).unwrap()))
                        } else {
                            V::D(w.parse().unwrap())
                        }
                    }
                    t => panic!("const {:?} of {:?} in {:?}", w, t, p.t),
                },
            },
            Tk::G(n) => V::C(self.sym_addr(&n)),
            Tk::S(b) => V::A(Rc::new(b.into_iter().map(|x| V::C(x as u128)).collect())),
            Tk::P('[') => self.agg(p, ']'),
            Tk::P('{') => self.agg(p, '}'),
            Tk::P('<') => {
                if p.eat('{') {
                    let v = self.agg(p, '}');
                    p.need('>');
                    v
                } else {
                    self.agg(p, '>')
                }
            }
            Tk::M(_) => V::U,
            x => panic!("const tok {:?} in {:?}", x, p.t),
        }
    }
    fn agg(&mut self, p: &mut Ps, end: char) -> V {
        let mut v = vec![];
        while !p.is(end) {
            let t = self.ty(p);
            v.push(self.konst(p, &t));
            p.eat(',');
        }
        p.need(end);
        V::A(Rc::new(v))
    }
    pub fn zero(&self, t: &Ty) -> V {
        match &**t {
            TyK::Int(_) | TyK::Ptr => V::C(0),
            TyK::F64 | TyK::F32 => V::D(0.0),
            TyK::Arr(n, e) | TyK::Vec(n, e) => V::A(Rc::new(vec![self.zero(e); *n as usize])),
            TyK::Struct(f, _) => V::A(Rc::new(f.iter().map(|x| self.zero(x)).collect())),
            _ => V::U,
        }
    }
    pub fn undef(&self, t: &Ty) -> V {
        match &**t {
            TyK::Arr(..) | TyK::Vec(..) | TyK::Struct(..) => self.zero(t),
            _ => V::C(0),
        }
    }

    /// Initializer of a global: (type, value or None when external)
    pub fn global_init(&mut self, i: usize) -> (Ty, Option<V>) {
        let def = self.gl[i].def.clone().unwrap();
        let tk = lex(&def);
        let mut p = Ps { t: &tk, i: 0 };
        let mut ext = false;
        loop {
            match p.nx() {
                Tk::W(w) => {
                    if w == "external" || w == "extern_weak" {
                        ext = true;
                    }
                    if w == "constant" || w == "global" {
                        break;
                    }
                    if p.is('(') {
                        p.skip_parens();
                    }
                }
                x => panic!("global {:?} {}", x, def),
            }
        }
        let t = self.ty(&mut p);
        if ext {
            return (t, None);
        }
        let v = self.konst(&mut p, &t);
        (t, Some(v))
    }

    pub fn func(&mut self, idx: usize) -> Option<Rc<Func>> {
        if let Some(f) = &self.fparsed[idx] {
            return Some(f.clone());
        }
        let (s, e) = self.fdef[idx]?;
        let f = Rc::new(self.parse_func(idx, s, e));
        self.fparsed[idx] = Some(f.clone());
        Some(f)
    }

    fn skip_attrs(&mut self, p: &mut Ps) {
        loop {
            match p.pk() {
                Tk::W(w) if PATTRS.contains(&w.as_str()) => {
                    let al = w == "align";
                    p.nx();
                    if p.is('(') {
                        p.skip_parens();
                    } else if al {
                        p.nx();
                    }
                }
                Tk::Q(_) => {
                    p.nx();
                    if p.eat('=') {
                        p.nx();
                    }
                }
                _ => break,
            }
        }
    }

    fn parse_func(&mut self, idx: usize, s: usize, e: usize) -> Func {
        let head = lex(&self.lines[s].clone());
        let mut p = Ps { t: &head, i: 0 };
        // find @name then '('
        while !matches!(p.pk(), Tk::G(_)) {
            p.nx();
        }
        p.nx();
        p.need('(');
        let mut regs: HashMap<String, u32> = HashMap::new();
        let mut params = vec![];
        let mut unnamed = 0u32;
        while !p.is(')') {
            if p.eatw("...") {
                continue;
            }
            let t = self.ty(&mut p);
            self.skip_attrs(&mut p);
            let n = match p.pk().clone() {
                Tk::L(n) => {
                    p.nx();
                    n
                }
                _ => {
                    let n = format!("{}", unnamed);
                    n
                }
            };
            if n.parse::<u32>().is_ok() {
                unnamed += 1;
            }
            let r = regs.len() as u32;
            regs.insert(n, r);
            params.push((r, t));
            p.eat(',');
        }
        // body: split into blocks
        let mut bnames: HashMap<String, u32> = HashMap::new();
        let mut raw: Vec<Vec<String>> = vec![];
        let mut i = s + 1;
        let mut cur: Option<usize> = None;
        while i < e {
            let l = self.lines[i].clone();
            let tl = l.trim();
            i += 1;
            if tl.is_empty() || tl.starts_with(';') {
                continue;
            }
            if !l.starts_with(' ') {
                // label:
                let n = if let Some(r) = l.strip_prefix('"') {
                    r[..r.find('"').unwrap()].to_string()
                } else {
                    l[..l.find(':').unwrap()].to_string()
                };
                bnames.insert(n, raw.len() as u32);
                raw.push(vec![]);
                cur = Some(raw.len() - 1);
                continue;
            }
            if cur.is_none() {
                bnames.insert(format!("{}", unnamed), 0);
                bnames.insert("entry-implicit".into(), 0);
                raw.push(vec![]);
                cur = Some(0);
            }
            let mut st = tl.to_string();
            // continuation lines
            if st.starts_with("switch ") && st.ends_with('[') {
                while !self.lines[i].trim().starts_with(']') {
                    st.push(' ');
                    st.push_str(self.lines[i].trim());
                    i += 1;
                }
                st.push_str(" ]");
                i += 1;
            } else if st.starts_with("invoke ") || st.contains(" = invoke ") {
                st.push(' ');
                st.push_str(self.lines[i].trim());
                i += 1;
            } else if st.contains("landingpad ") {
                while {
                    let n = self.lines[i].trim();
                    n.starts_with("cleanup") || n.starts_with("catch") || n.starts_with("filter")
                } {
                    i += 1;
                }
            }
            raw[cur.unwrap()].push(st);
        }
        let mut blocks = vec![];
        for b in raw {
            let mut ins = vec![];
            for st in b {
                ins.push(self.instr(&st, &mut regs, &bnames));
            }
            blocks.push(Block { ins });
        }
        Func { name: self.fnames[idx].clone(), nparams: params.len(), params, nregs: regs.len(), blocks, idx }
    }

    fn reg(regs: &mut HashMap<String, u32>, n: &str) -> u32 {
        if let Some(r) = regs.get(n) {
            return *r;
        }
        let r = regs.len() as u32;
        regs.insert(n.to_string(), r);
        r
    }
    fn op(&mut self, p: &mut Ps, ty: &Ty, regs: &mut HashMap<String, u32>) -> Op {
        if let Tk::L(n) = p.pk().clone() {
            p.nx();
            return Op::R(Self::reg(regs, &n));
        }
        if let Tk::M(_) = p.pk() {
            // metadata operand: skip to , or )
            let mut d = 0;
            loop {
                match p.pk() {
                    Tk::P('(') => d += 1,
                    Tk::P(')') if d == 0 => break,
                    Tk::P(')') => d -= 1,
                    Tk::P(',') if d == 0 => break,
                    Tk::E => break,
                    _ => {}
                }
                p.nx();
            }
            return Op::K(V::U);
        }
        Op::K(self.konst(p, ty))
    }
    fn tyop(&mut self, p: &mut Ps, regs: &mut HashMap<String, u32>) -> (Ty, Op) {
        let t = self.ty(p);
        self.skip_attrs(p);
        let o = self.op(p, &t, regs);
        (t, o)
    }
    fn label(p: &mut Ps, bn: &HashMap<String, u32>) -> u32 {
        assert!(p.eatw("label"), "{:?}", p.t);
        match p.nx() {
            Tk::L(n) => bn[&n],
            x => panic!("{:?}", x),
        }
    }

    fn instr(&mut self, st: &str, regs: &mut HashMap<String, u32>, bn: &HashMap<String, u32>) -> I {
        let tk = lex(st);
        let mut p = Ps { t: &tk, i: 0 };
        let mut dst: Option<u32> = None;
        if let (Tk::L(n), Tk::P('=')) = (p.pk().clone(), p.pk2(1).clone()) {
            dst = Some(Self::reg(regs, &n));
            p.i += 2;
        }
        let d = dst.unwrap_or(u32::MAX);
        let w = match p.nx() {
            Tk::W(w) => w,
            x => panic!("instr {:?}: {}", x, st),
        };
        let flags = |p: &mut Ps| {
            while let Tk::W(x) = p.pk() {
                match x.as_str() {
                    "nuw" | "nsw" | "exact" | "inbounds" | "disjoint" | "nneg" | "volatile" | "fast" | "nnan" | "ninf"
                    | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "samesign" | "nusw" | "inalloca" | "atomic"
                    | "weak" => {
                        p.nx();
                    }
                    _ => break,
                }
            }
        };
        let bin = |s: &str| -> Option<Bin> {
            Some(match s {
                "add" => Bin::Add,
                "sub" => Bin::Sub,
                "mul" => Bin::Mul,
                "udiv" => Bin::UDiv,
                "sdiv" => Bin::SDiv,
                "urem" => Bin::URem,
                "srem" => Bin::SRem,
                "and" => Bin::And,
                "or" => Bin::Or,
                "xor" => Bin::Xor,
                "shl" => Bin::Shl,
                "lshr" => Bin::LShr,
                "ashr" => Bin::AShr,
                "fadd" => Bin::FAdd,
                "fsub" => Bin::FSub,
                "fmul" => Bin::FMul,
                "fdiv" => Bin::FDiv,
                _ => return None,
            })
        };
        let cast = |s: &str| -> Option<Cast> {
            Some(match s {
                "zext" => Cast::Zext,
                "sext" => Cast::Sext,
                "trunc" => Cast::Trunc,
                "ptrtoint" => Cast::PtrToInt,
                "inttoptr" => Cast::IntToPtr,
                "bitcast" => Cast::Bitcast,
                "uitofp" => Cast::UiToFp,
                "sitofp" => Cast::SiToFp,
                "fptoui" => Cast::FpToUi,
                "fptosi" => Cast::FpToSi,
                _ => return None,
            })
        };
        if let Some(b) = bin(&w) {
            flags(&mut p);
            let t = self.ty(&mut p);
            let a = self.op(&mut p, &t, regs);
            p.need(',');
            let c = self.op(&mut p, &t, regs);
            return I::Bin(d, b, t, a, c);
        }
        if let Some(c) = cast(&w) {
            flags(&mut p);
            let (t, a) = self.tyop(&mut p, regs);
            assert!(p.eatw("to"), "{}", st);
            let t2 = self.ty(&mut p);
            return I::Cast(d, c, t, a, t2);
        }
        match w.as_str() {
            "alloca" => {
                flags(&mut p);
                let t = self.ty(&mut p);
                let mut n = 1u64;
                if p.eat(',') && !p.isw("align") {
                    let it = self.ty(&mut p);
                    match self.op(&mut p, &it, regs) {
                        Op::K(V::C(c)) => n = c as u64,
                        _ => return I::Unsup(st.into()),
                    }
                }
                I::Alloca(d, n * size(&t))
            }
            "load" => {
                flags(&mut p);
                let t = self.ty(&mut p);
                p.need(',');
                let (_, a) = self.tyop(&mut p, regs);
                I::Load(d, t, a)
            }
            "store" => {
                flags(&mut p);
                let (t, v) = self.tyop(&mut p, regs);
                p.need(',');
                let (_, a) = self.tyop(&mut p, regs);
                I::Store(t, v, a)
            }
            "getelementptr" => {
                flags(&mut p);
                let bt = self.ty(&mut p);
                p.need(',');
                let (pt, b) = self.tyop(&mut p, regs);
                if matches!(&*pt, TyK::Vec(..)) {
                    return I::Unsup(st.into());
                }
                let mut off = 0i64;
                let mut idx = vec![];
                let mut cur = bt.clone();
                let mut first = true;
                while p.eat(',') {
                    if let Tk::M(_) = p.pk() {
                        break;
                    }
                    let (it, o) = self.tyop(&mut p, regs);
                    let iw = match &*it {
                        TyK::Int(w) => *w,
                        _ => return I::Unsup(st.into()),
                    };
                    let (sc, next): (i64, Option<Ty>) = if first {
                        first = false;
                        (size(&cur) as i64, None)
                    } else {
                        match &*cur.clone() {
                            TyK::Struct(f, _) => {
                                let k = match o {
                                    Op::K(V::C(c)) => c as usize,
                                    _ => panic!(),
                                };
                                off += field_off(&cur, k) as i64;
                                cur = f[k].clone();
                                continue;
                            }
                            TyK::Arr(_, e) | TyK::Vec(_, e) => (size(e) as i64, Some(e.clone())),
                            _ => panic!("{}", st),
                        }
                    };
                    match o {
                        Op::K(V::C(c)) => off += (sx(c, iw) as i64) * sc,
                        o => idx.push((o, iw, sc)),
                    }
                    if let Some(n) = next {
                        cur = n;
                    }
                }
                I::Gep(d, b, off, idx)
            }
            "icmp" => {
                flags(&mut p);
                let pr = match p.nx() {
                    Tk::W(w) => match w.as_str() {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        _ => panic!(),
                    },
                    _ => panic!(),
                };
                let t = self.ty(&mut p);
                let a = self.op(&mut p, &t, regs);
                p.need(',');
                let b = self.op(&mut p, &t, regs);
                I::Icmp(d, pr, t, a, b)
            }
            "fcmp" => {
                flags(&mut p);
                let pr = match p.nx() {
                    Tk::W(w) => w,
                    _ => panic!(),
                };
                let t = self.ty(&mut p);
                let a = self.op(&mut p, &t, regs);
                p.need(',');
                let b = self.op(&mut p, &t, regs);
                I::Fcmp(d, pr, a, b)
            }
            "fneg" => {
                flags(&mut p);
                let (_, a) = self.tyop(&mut p, regs);
                I::Fneg(d, a)
            }
            "select" => {
                flags(&mut p);
                let (ct, c) = self.tyop(&mut p, regs);
                p.need(',');
                let (t, a) = self.tyop(&mut p, regs);
                p.need(',');
                let (_, b) = self.tyop(&mut p, regs);
                I::Select(d, t, c, a, b, matches!(&*ct, TyK::Vec(..)))
            }
            "br" => {
                if p.isw("label") {
                    return I::Br(Self::label(&mut p, bn));
                }
                let (_, c) = self.tyop(&mut p, regs);
                p.need(',');
                let a = Self::label(&mut p, bn);
                p.need(',');
                let b = Self::label(&mut p, bn);
                I::CondBr(c, a, b)
            }
            "switch" => {
                let (t, v) = self.tyop(&mut p, regs);
                let wd = match &*t {
                    TyK::Int(w) => *w,
                    _ => panic!(),
                };
                p.need(',');
                let def = Self::label(&mut p, bn);
                p.need('[');
                let mut cs = vec![];
                while !p.is(']') {
                    let ct = self.ty(&mut p);
                    let c = match self.konst(&mut p, &ct) {
                        V::C(c) => c,
                        _ => panic!(),
                    };
                    p.need(',');
                    cs.push((c, Self::label(&mut p, bn)));
                }
                I::Switch(wd, v, def, cs)
            }
            "phi" => {
                flags(&mut p);
                let t = self.ty(&mut p);
                let mut v = vec![];
                loop {
                    p.need('[');
                    let o = self.op(&mut p, &t, regs);
                    p.need(',');
                    let l = match p.nx() {
                        Tk::L(n) => bn[&n],
                        _ => panic!(),
                    };
                    p.need(']');
                    v.push((o, l));
                    if !p.eat(',') || !p.is('[') {
                        break;
                    }
                }
                I::Phi(d, t, v)
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                let inv = w == "invoke";
                if w != "call" && !inv {
                    assert!(p.eatw("call"));
                }
                flags(&mut p);
                for cc in ["fastcc", "coldcc", "ccc", "preserve_mostcc"] {
                    p.eatw(cc);
                }
                self.skip_attrs(&mut p);
                let rt = self.ty(&mut p);
                if p.is('(') {
                    p.skip_parens(); // function type
                }
                let callee = match p.pk().clone() {
                    Tk::L(n) => {
                        p.nx();
                        Op::R(Self::reg(regs, &n))
                    }
                    Tk::W(x) if x == "asm" => return I::Unsup(st.into()),
                    _ => Op::K(self.konst(&mut p, &Rc::new(TyK::Ptr))),
                };
                p.need('(');
                let mut args = vec![];
                while !p.is(')') {
                    let t = self.ty(&mut p);
                    self.skip_attrs(&mut p);
                    let o = self.op(&mut p, &t, regs);
                    args.push((t, o));
                    p.eat(',');
                }
                p.need(')');
                let mut nb = None;
                if inv {
                    while !p.isw("to") {
                        p.nx();
                    }
                    p.nx();
                    nb = Some(Self::label(&mut p, bn));
                }
                I::Call(dst, rt, callee, args, nb)
            }
            "ret" => {
                if p.isw("void") {
                    return I::Ret(None);
                }
                let (t, v) = self.tyop(&mut p, regs);
                I::Ret(Some((t, v)))
            }
            "extractvalue" => {
                let (_, a) = self.tyop(&mut p, regs);
                let mut ix = vec![];
                while p.eat(',') {
                    match p.nx() {
                        Tk::W(w) => ix.push(w.parse().unwrap()),
                        _ => break,
                    }
                }
                I::ExtractV(d, a, ix)
            }
            "insertvalue" => {
                let (t, a) = self.tyop(&mut p, regs);
                p.need(',');
                let (_, b) = self.tyop(&mut p, regs);
                let mut ix = vec![];
                while p.eat(',') {
                    match p.nx() {
                        Tk::W(w) => ix.push(w.parse().unwrap()),
                        _ => break,
                    }
                }
                I::InsertV(d, t, a, b, ix)
            }
            "freeze" => {
                let (_, a) = self.tyop(&mut p, regs);
                I::Freeze(d, a)
            }
            "atomicrmw" => {
                flags(&mut p);
                let o = match p.nx() {
                    Tk::W(w) => w,
                    _ => panic!(),
                };
                let (_, a) = self.tyop(&mut p, regs);
                p.need(',');
                let (t, v) = self.tyop(&mut p, regs);
                I::Rmw(d, o, t, a, v)
            }
            "cmpxchg" => {
                flags(&mut p);
                let (_, a) = self.tyop(&mut p, regs);
                p.need(',');
                let (t, c) = self.tyop(&mut p, regs);
                p.need(',');
                let (_, n) = self.tyop(&mut p, regs);
                I::CmpXchg(d, t, a, c, n)
            }
            "fence" => I::Fence,
            "unreachable" => I::Unreachable,
            "extractelement" => {
                let (t, a) = self.tyop(&mut p, regs);
                p.need(',');
                let (_, i) = self.tyop(&mut p, regs);
                I::ExtElt(d, t, a, i)
            }
            "insertelement" => {
                let (t, a) = self.tyop(&mut p, regs);
                p.need(',');
                let (_, b) = self.tyop(&mut p, regs);
                p.need(',');
                let (_, i) = self.tyop(&mut p, regs);
                I::InsElt(d, t, a, b, i)
            }
            "shufflevector" => {
                let (t, a) = self.tyop(&mut p, regs);
                p.need(',');
                let (_, b) = self.tyop(&mut p, regs);
                p.need(',');
                let mt = self.ty(&mut p);
                let m = self.konst(&mut p, &mt);
                let m = match m {
                    V::A(v) => v
                        .iter()
                        .map(|x| match x {
                            V::C(c) => *c as i64,
                            _ => 0,
                        })
                        .collect(),
                    _ => panic!(),
                };
                I::Shuffle(d, t, a, b, m)
            }
            _ => I::Unsup(st.into()),
        }
    }
}

pub fn sx(c: u128, w: u32) -> i128 {
    let sh = 128 - w;
    ((c << sh) as i128) >> sh
}
