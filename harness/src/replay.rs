//! Native twin of the symbolic executor's interface: runs an entry point on concrete inputs against the
//! real, natively compiled code. stdin: one run per line "ENTRY params,.. inputs,..", stdout: trace lines.
#![allow(static_mut_refs)]
use std::io::{BufRead, Write};
extern crate vp_harness;
use vp_harness as h;
static mut INPUTS: Vec<u128> = vec![];
static mut POS: usize = 0;
static mut PARAMS: Vec<u64> = vec![];
static mut MUST: bool = false;

fn next() -> u128 {
    unsafe {
        if POS >= INPUTS.len() {
            end("inputs-exhausted");
        }
        POS += 1;
        INPUTS[POS - 1]
    }
}
fn name(p: *const u8, n: usize) -> String {
    unsafe { String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned() }
}
fn out(s: String) {
    let mut o = std::io::stdout();
    let _ = o.write_all(s.as_bytes());
    let _ = o.write_all(b"\n");
    let _ = o.flush();
}
extern "C" {
    fn _exit(c: i32) -> !;
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn alarm(s: u32) -> u32;
}
fn end(k: &str) -> ! {
    out(format!("E {}", k));
    unsafe { _exit(0) }
}
#[no_mangle]
pub extern "C" fn vp_sym(_n: *const u8, _l: usize, o: *mut u8, nbytes: u32, _bits: u32) {
    let v = next().to_le_bytes();
    unsafe { std::ptr::copy_nonoverlapping(v.as_ptr(), o, nbytes as usize) };
}
#[no_mangle]
pub extern "C" fn vp_key(_n: *const u8, _l: usize, o: *mut u8) {
    let (a, b) = (next().to_le_bytes(), next().to_le_bytes());
    unsafe {
        std::ptr::copy_nonoverlapping(a.as_ptr(), o, 16);
        std::ptr::copy_nonoverlapping(b.as_ptr(), o.add(16), 16);
    }
}
#[no_mangle]
pub extern "C" fn vp_fixed(_p: *const u8) {}
#[no_mangle]
pub extern "C" fn vp_choose(_n: u32) -> u32 {
    next() as u32
}
#[no_mangle]
pub extern "C" fn vp_param(i: u32) -> u64 {
    unsafe { PARAMS.get(i as usize).copied().unwrap_or(0) }
}
#[no_mangle]
pub extern "C" fn vp_assume(c: bool) {
    if !c {
        end("killed");
    }
}
#[no_mangle]
pub extern "C" fn vp_assert(c: bool, n: *const u8, l: usize) {
    if !c {
        out(format!("V {}", name(n, l)));
    }
}
#[no_mangle]
pub extern "C" fn vp_reach(n: *const u8, l: usize) {
    out(format!("R {}", name(n, l)));
}
#[no_mangle]
pub extern "C" fn vp_log(n: *const u8, l: usize, v: u64) {
    out(format!("L {} {}", name(n, l), v));
}
#[no_mangle]
pub extern "C" fn vp_must(c: bool) {
    unsafe { MUST = c };
    out(format!("M {}", c as u8));
}
#[no_mangle]
pub extern "C" fn vp_ite(c: bool, a: u64, b: u64) -> u64 {
    if c {
        a
    } else {
        b
    }
}
#[no_mangle]
pub extern "C" fn vp_and(a: bool, b: bool) -> bool {
    a & b
}
#[no_mangle]
pub extern "C" fn vp_or(a: bool, b: bool) -> bool {
    a | b
}
#[no_mangle]
pub extern "C" fn vp_bytes_eq(a: *const u8, b: *const u8, n: usize) -> bool {
    unsafe { std::slice::from_raw_parts(a, n) == std::slice::from_raw_parts(b, n) }
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        out(format!("P {}", m));
        if unsafe { MUST } {
            out("V no-panic".to_string());
        }
        end("abort");
    }));
    let stdin = std::io::stdin();
    let lines: Vec<String> = stdin.lock().lines().map(|l| l.unwrap()).collect();
    for (i, l) in lines.iter().enumerate() {
        let mut it = l.split(' ');
        let entry = it.next().unwrap_or("").to_string();
        let nums = |s: Option<&str>| -> Vec<u128> { s.unwrap_or("").split(',').filter(|x| !x.is_empty() && *x != "-").map(|x| x.parse().unwrap()).collect() };
        let params = nums(it.next());
        let inputs = nums(it.next());
        out(format!("BEGIN {}", i));
        unsafe {
            let p = fork();
            if p == 0 {
                alarm(30);
                PARAMS = params.iter().map(|x| *x as u64).collect();
                INPUTS = inputs;
                POS = 0;
                let f = h::entries::ENTRIES.iter().find(|(n, _)| *n == entry);
                match f {
                    Some((_, f)) => f(),
                    None => end("no-such-entry"),
                }
                end(if POS == INPUTS.len() { "ret" } else { "ret-unused-inputs" });
            }
            let mut st = 0;
            waitpid(p, &mut st, 0);
            if st != 0 {
                out(format!("E crashed-{}", st));
            }
        }
    }
}
