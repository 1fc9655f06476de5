//! Symbolic inputs, assumptions and checks for harnesses. Under the symbolic executor these calls are
//! intercepted; in a native run they replay one concrete assignment (see rt.c).
#![allow(clippy::missing_safety_doc)]

extern "C" {
    fn __sym_u8(n: *const u8, l: usize) -> u8;
    fn __sym_u16(n: *const u8, l: usize) -> u16;
    fn __sym_u32(n: *const u8, l: usize) -> u32;
    fn __sym_u64(n: *const u8, l: usize) -> u64;
    fn __sym_bytes(n: *const u8, l: usize, p: *mut u8, k: usize);
    fn __sym_assume(c: u8);
    fn __sym_check(c: u8, m: *const u8, l: usize);
    fn __sym_fail(m: *const u8, l: usize);
    fn __sym_cover(c: u8, m: *const u8, l: usize);
    fn __sym_concretize(v: u64) -> u64;
    fn __sym_merge(v: u8);
    fn __sym_real_fmt(v: u8);
    fn __sym_set_model_div(v: u8);
    fn __sym_expect_panic(v: u8);
    fn __sym_panic_expected() -> i32;
    fn __sym_ite64(c: u8, a: u64, b: u64) -> u64;
    fn __sym_trace(m: *const u8, l: usize, v: u64);
    fn __sym_done();
}

#[inline(always)]
pub fn u8(n: &'static str) -> u8 {
    unsafe { __sym_u8(n.as_ptr(), n.len()) }
}
#[inline(always)]
pub fn u16(n: &'static str) -> u16 {
    unsafe { __sym_u16(n.as_ptr(), n.len()) }
}
#[inline(always)]
pub fn u32(n: &'static str) -> u32 {
    unsafe { __sym_u32(n.as_ptr(), n.len()) }
}
#[inline(always)]
pub fn u64(n: &'static str) -> u64 {
    unsafe { __sym_u64(n.as_ptr(), n.len()) }
}
#[inline(always)]
pub fn u128(n: &'static str) -> u128 {
    let lo = u64(n);
    let hi = u64(n);
    (hi as u128) << 64 | lo as u128
}
#[inline(always)]
pub fn i128(n: &'static str) -> i128 {
    u128(n) as i128
}
#[inline(always)]
pub fn i64(n: &'static str) -> i64 {
    u64(n) as i64
}
#[inline(always)]
pub fn usize(n: &'static str) -> usize {
    u64(n) as usize
}
#[inline(always)]
pub fn boolean(n: &'static str) -> bool {
    u8(n) & 1 == 1
}
pub fn bytes<const N: usize>(n: &'static str) -> [u8; N] {
    let mut b = [0u8; N];
    unsafe { __sym_bytes(n.as_ptr(), n.len(), b.as_mut_ptr(), N) };
    b
}
pub fn vec(n: &'static str, len: usize) -> Vec<u8> {
    let mut b = vec![0u8; len];
    unsafe { __sym_bytes(n.as_ptr(), n.len(), b.as_mut_ptr(), len) };
    b
}
/// A value in lo..=hi, still symbolic.
pub fn range(n: &'static str, lo: u64, hi: u64) -> u64 {
    let span = hi - lo;
    let mask = if span == 0 { 0 } else { u64::MAX >> span.leading_zeros() };
    let d = u64(n) & mask;
    assume(d <= span);
    lo + d
}
/// One of 0..k, explored value by value.
pub fn choose(n: &'static str, k: usize) -> usize {
    let v = u8(n);
    assume((v as usize) < k);
    concretize(v as u64) as usize
}
/// true/false, explored as two separate paths.
pub fn flag(n: &'static str) -> bool {
    choose(n, 2) == 1
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { __sym_assume(c as u8) }
}
#[inline(always)]
pub fn check(c: bool, m: &'static str) {
    unsafe { __sym_check(c as u8, m.as_ptr(), m.len()) }
}
/// `ok || known` must hold; a failure inside `known` is reported under the label `kf` instead.
#[inline(always)]
pub fn check_known(ok: bool, known: bool, m: &'static str, kf: &'static str) {
    check(ok | known, m);
    check(ok | !known, kf);
}
#[inline(always)]
pub fn fail(m: &'static str) {
    unsafe { __sym_fail(m.as_ptr(), m.len()) }
}
#[inline(always)]
pub fn cover(m: &'static str) {
    unsafe { __sym_cover(1, m.as_ptr(), m.len()) }
}
/// Record that `c` is possible here (does not fork).
#[inline(always)]
pub fn cover_if(c: bool, m: &'static str) {
    unsafe { __sym_cover(c as u8, m.as_ptr(), m.len()) }
}
#[inline(always)]
pub fn concretize(v: u64) -> u64 {
    unsafe { __sym_concretize(v) }
}
/// Switch path merging at branch joins on or off.
pub fn merge(on: bool) {
    unsafe { __sym_merge(on as u8) }
}
/// Execute core::fmt::write for real (by default formatting has an empty body).
pub fn real_fmt(on: bool) {
    unsafe { __sym_real_fmt(on as u8) }
}
/// Replace the limb arithmetic of the wide integers (add, sub, mul, div, compare) by its definition (symbolic runs only; property C01
/// decides the real one).
pub fn model_div(on: bool) {
    unsafe { __sym_set_model_div(on as u8) }
}
/// While set, a panic ends the path without being a violation.
pub fn expect_panic(on: bool) {
    unsafe { __sym_expect_panic(on as u8) }
}
/// Select without a branch.
#[inline(always)]
pub fn ite64(c: bool, a: u64, b: u64) -> u64 {
    unsafe { __sym_ite64(c as u8, a, b) }
}
#[inline(always)]
pub fn ite(c: bool, a: u128, b: u128) -> u128 {
    let lo = ite64(c, a as u64, b as u64);
    let hi = ite64(c, (a >> 64) as u64, (b >> 64) as u64);
    (hi as u128) << 64 | lo as u128
}
pub fn trace(m: &'static str, v: u64) {
    unsafe { __sym_trace(m.as_ptr(), m.len(), v) }
}

pub type H = extern "C" fn();

/// Native entry point: run one harness on the assignment in $SYM_REPLAY.
pub fn run(hs: &'static [(&'static str, H)]) {
    let a = std::env::args().nth(1).unwrap_or_default();
    if a == "list" {
        for (n, _) in hs {
            println!("{n}");
        }
        return;
    }
    std::panic::set_hook(Box::new(|i| {
        if unsafe { __sym_panic_expected() } != 0 {
            println!("SYM-EXPECTED-PANIC");
            unsafe { __sym_done() };
            std::process::exit(0);
        }
        println!("SYM-PANIC: {i}");
    }));
    match hs.iter().find(|(n, _)| n.rsplit("::").next().unwrap().trim() == a) {
        Some((_, f)) => {
            f();
            unsafe { __sym_done() };
        }
        None => {
            eprintln!("unknown harness {a}");
            std::process::exit(79);
        }
    }
}

/// `sym::main!(m::h_x, m::h_y);` at the root of a harness binary.
#[macro_export]
macro_rules! main {
    ($($n:path),* $(,)?) => {
        static HARNESSES: &[(&str, $crate::H)] = &[$((stringify!($n), $n as $crate::H)),*];
        fn main() {
            $crate::run(HARNESSES)
        }
    };
}
