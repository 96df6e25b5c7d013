//! Byte-addressed copy-on-write memory with a symbolic overlay.
use crate::ir::V;
use crate::term::*;
use std::rc::Rc;

pub const PG: usize = 128;

#[derive(Clone)]
pub struct Page {
    pub b: [u8; PG],
    pub s: Option<Box<[u64; PG]>>, // term << 8 | byte index ; 0 = concrete
}

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub pages: Vec<Rc<Page>>,
    pub alive: bool,
}

/// One byte: concrete or byte `i` of term `t`.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum By {
    C(u8),
    S(T, u8),
}

impl Obj {
    pub fn new(size: u64, zero: &Rc<Page>) -> Obj {
        let n = ((size as usize) + PG - 1) / PG;
        Obj { size, pages: vec![zero.clone(); n], alive: true }
    }
    pub fn get(&self, o: usize) -> By {
        let p = &self.pages[o / PG];
        let k = o % PG;
        if let Some(s) = &p.s {
            let x = s[k];
            if x != 0 {
                return By::S((x >> 8) as T, (x & 255) as u8);
            }
        }
        By::C(p.b[k])
    }
    pub fn set(&mut self, o: usize, v: By) {
        let p = Rc::make_mut(&mut self.pages[o / PG]);
        let k = o % PG;
        match v {
            By::C(c) => {
                p.b[k] = c;
                if let Some(s) = &mut p.s {
                    s[k] = 0;
                }
            }
            By::S(t, i) => {
                if p.s.is_none() {
                    p.s = Some(Box::new([0; PG]));
                }
                p.s.as_mut().unwrap()[k] = ((t as u64) << 8) | i as u64;
            }
        }
    }
    /// concrete little-endian read when every byte is concrete
    pub fn read_c(&self, o: usize, n: usize) -> Option<u128> {
        let pi = o / PG;
        let k = o % PG;
        if k + n <= PG {
            let p = &self.pages[pi];
            if let Some(s) = &p.s {
                if s[k..k + n].iter().any(|x| *x != 0) {
                    return None;
                }
            }
            let mut buf = [0u8; 16];
            buf[..n].copy_from_slice(&p.b[k..k + n]);
            return Some(u128::from_le_bytes(buf));
        }
        let mut v = 0u128;
        for i in 0..n {
            match self.get(o + i) {
                By::C(c) => v |= (c as u128) << (8 * i),
                _ => return None,
            }
        }
        Some(v)
    }
    pub fn write_c(&mut self, o: usize, n: usize, v: u128) {
        let k = o % PG;
        if k + n <= PG {
            let p = Rc::make_mut(&mut self.pages[o / PG]);
            p.b[k..k + n].copy_from_slice(&v.to_le_bytes()[..n]);
            if let Some(s) = &mut p.s {
                for x in s[k..k + n].iter_mut() {
                    *x = 0;
                }
            }
            return;
        }
        for i in 0..n {
            self.set(o + i, By::C((v >> (8 * i)) as u8));
        }
    }
}

/// Assemble bytes (little endian, up to 16) into a value.
pub fn join(ts: &mut Terms, b: &[By]) -> V {
    let n = b.len();
    if b.iter().all(|x| matches!(x, By::C(_))) {
        let mut v = 0u128;
        for (i, x) in b.iter().enumerate() {
            if let By::C(c) = x {
                v |= (*c as u128) << (8 * i);
            }
        }
        return V::C(v);
    }
    // group into runs, low to high
    let mut parts: Vec<T> = vec![];
    let mut i = 0;
    while i < n {
        match b[i] {
            By::C(c) => {
                let mut v = c as u128;
                let mut j = i + 1;
                while j < n {
                    if let By::C(c) = b[j] {
                        v |= (c as u128) << (8 * (j - i));
                        j += 1;
                    } else {
                        break;
                    }
                }
                parts.push(ts.konst(8 * (j - i) as u32, v));
                i = j;
            }
            By::S(t, k) => {
                let mut j = i + 1;
                while j < n && b[j] == By::S(t, k + (j - i) as u8) {
                    j += 1;
                }
                let tw = ts.w(t);
                let lo = 8 * k as u32;
                let w = 8 * (j - i) as u32;
                if lo >= tw {
                    parts.push(ts.konst(w, 0));
                } else if lo + w > tw {
                    let e = ts.extract(t, lo, tw - lo);
                    parts.push(ts.zext(e, w));
                } else {
                    parts.push(ts.extract(t, lo, w));
                }
                i = j;
            }
        }
    }
    let mut acc = parts[parts.len() - 1];
    for p in parts[..parts.len() - 1].iter().rev() {
        acc = ts.concat(acc, *p);
    }
    match ts.cv(acc) {
        Some(c) => V::C(c),
        None => V::T(acc),
    }
}
