//! Interface to the symbolic executor. Under the executor these calls are intercepted; in the native
//! replay binary (src/replay.rs) they read concrete values from an input file.
use solana_program::pubkey::Pubkey;

extern "C" {
    fn vp_sym(name: *const u8, len: usize, out: *mut u8, nbytes: u32, bits: u32);
    fn vp_key(name: *const u8, len: usize, out: *mut u8);
    fn vp_fixed(p: *const u8);
    fn vp_choose(n: u32) -> u32;
    fn vp_param(i: u32) -> u64;
    fn vp_assume(c: bool);
    fn vp_assert(c: bool, name: *const u8, len: usize);
    fn vp_reach(name: *const u8, len: usize);
    fn vp_log(name: *const u8, len: usize, v: u64);
    fn vp_must(c: bool);
    fn vp_ite(c: bool, a: u64, b: u64) -> u64;
    fn vp_and(a: bool, b: bool) -> bool;
    fn vp_or(a: bool, b: bool) -> bool;
    fn vp_bytes_eq(a: *const u8, b: *const u8, n: usize) -> bool;
}

/// symbolic u64 of the given bit width
pub fn bits(name: &str, n: u32) -> u64 {
    let mut o = [0u8; 8];
    unsafe { vp_sym(name.as_ptr(), name.len(), o.as_mut_ptr(), 8, n) };
    u64::from_le_bytes(o)
}
pub fn u64v(name: &str) -> u64 {
    bits(name, 64)
}
pub fn u128v(name: &str, n: u32) -> u128 {
    let mut o = [0u8; 16];
    unsafe { vp_sym(name.as_ptr(), name.len(), o.as_mut_ptr(), 16, n) };
    u128::from_le_bytes(o)
}
pub fn u8v(name: &str) -> u8 {
    let mut o = [0u8; 1];
    unsafe { vp_sym(name.as_ptr(), name.len(), o.as_mut_ptr(), 1, 8) };
    o[0]
}
pub fn boolv(name: &str) -> bool {
    let mut o = [0u8; 1];
    unsafe { vp_sym(name.as_ptr(), name.len(), o.as_mut_ptr(), 1, 1) };
    o[0] == 1
}
/// arbitrary 32-byte address that is not a program-derived address of any seeds used in the run
pub fn key(name: &str) -> Pubkey {
    let mut o = [0u8; 32];
    unsafe { vp_key(name.as_ptr(), name.len(), o.as_mut_ptr()) };
    Pubkey::new_from_array(o)
}
/// a well-known address, which no derived address equals
pub fn fixed(a: &Pubkey) {
    unsafe { vp_fixed(a.as_ref().as_ptr()) }
}
/// explore every value below n
pub fn choose(n: u32) -> u32 {
    unsafe { vp_choose(n) }
}
/// explore every value below n, or only the one pinned by parameter i (stored plus one)
pub fn pick(i: u32, n: u32) -> u32 {
    let p = param(i) as u32;
    if p == 0 {
        choose(n)
    } else {
        p - 1
    }
}
pub fn param(i: u32) -> u64 {
    unsafe { vp_param(i) }
}
pub fn assume(c: bool) {
    unsafe { vp_assume(c) }
}
pub fn check(c: bool, l: &str) {
    unsafe { vp_assert(c, l.as_ptr(), l.len()) }
}
pub fn reach(l: &str) {
    unsafe { vp_reach(l.as_ptr(), l.len()) }
}
pub fn log(l: &str, v: u64) {
    unsafe { vp_log(l.as_ptr(), l.len(), v) }
}
pub fn log128(l: &str, v: u128) {
    log(l, v as u64);
    log(l, (v >> 64) as u64);
}
/// from here on a panic is a violation whenever c holds
pub fn must(c: bool) {
    unsafe { vp_must(c) }
}
pub fn ite(c: bool, a: u64, b: u64) -> u64 {
    unsafe { vp_ite(c, a, b) }
}
pub fn ite128(c: bool, a: u128, b: u128) -> u128 {
    let l = ite(c, a as u64, b as u64) as u128;
    let h = ite(c, (a >> 64) as u64, (b >> 64) as u64) as u128;
    (h << 64) | l
}
pub fn and(a: bool, b: bool) -> bool {
    unsafe { vp_and(a, b) }
}
pub fn or(a: bool, b: bool) -> bool {
    unsafe { vp_or(a, b) }
}
pub fn not(a: bool) -> bool {
    !a
}
pub fn implies(a: bool, b: bool) -> bool {
    or(!a, b)
}
pub fn all(v: &[bool]) -> bool {
    let mut r = true;
    for x in v {
        r = and(r, *x);
    }
    r
}
pub fn keq(a: &Pubkey, b: &Pubkey) -> bool {
    unsafe { vp_bytes_eq(a.as_ref().as_ptr(), b.as_ref().as_ptr(), 32) }
}
pub fn beq(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && unsafe { vp_bytes_eq(a.as_ptr(), b.as_ptr(), a.len()) }
}
