//! The interface between the harnesses and whatever runs them: the symbolic executor
//! (feature "sym": only declarations) or the native replayer (definitions in native.rs).
#![allow(dead_code)]
extern "C" {
    fn irse_id() -> u32;
    fn irse_param(i: u32) -> i64;
    fn irse_sym(lo: f64, hi: f64) -> f64;
    fn irse_choice(n: u32) -> u32;
    fn irse_sched_on(on: u32);
    fn irse_assume(b: u32);
    fn irse_assume_le(a: f64, b: f64);
    fn irse_assume_lt(a: f64, b: f64);
    fn irse_check(b: u32, id: u32);
    fn irse_close(a: f64, b: f64, tol: f64, id: u32);
    fn irse_le(a: f64, b: f64, tol: f64, id: u32);
    fn irse_same(a: f64, b: f64, id: u32);
    fn irse_obs(x: f64);
    fn irse_obs_i(x: u64);
    fn irse_expect_panic(on: u32);
    fn irse_vfile(p: *const u8, pn: u64, d: *const u8, dn: u64);
    fn irse_token(x: f64, buf: *mut u8) -> u64;
    fn irse_ideal(on: u32);
    #[cfg(feature = "sym")]
    fn irse_round_dec(x: f64, digits: u64) -> f64;
    fn irse_parse(p: *const u8, n: u64) -> f64;
}
pub fn id() -> u32 {
    unsafe { irse_id() }
}
/// parameter i of the configuration
pub fn par(i: u32) -> i64 {
    unsafe { irse_param(i) }
}
pub fn pu(i: u32) -> usize {
    par(i) as usize
}
/// an arbitrary real in [lo, hi]
pub fn sym(lo: f64, hi: f64) -> f64 {
    unsafe { irse_sym(lo, hi) }
}
/// an arbitrary number below n
pub fn choice(n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    unsafe { irse_choice(n as u32) as usize }
}
/// explore the orders of parallel tasks: 0 not at all, 1 all of them, 2 three patterns
pub fn sched_on(mode: usize) {
    unsafe { irse_sched_on(mode as u32) }
}
pub fn assume(b: bool) {
    unsafe { irse_assume(b as u32) }
}
pub fn assume_le(a: f64, b: f64) {
    unsafe { irse_assume_le(a, b) }
}
pub fn assume_lt(a: f64, b: f64) {
    unsafe { irse_assume_lt(a, b) }
}
#[track_caller]
pub fn check(b: bool, id: u32) {
    unsafe { irse_check(b as u32, id) }
}
/// |a - b| <= tol
pub fn close(a: f64, b: f64, tol: f64, id: u32) {
    unsafe { irse_close(a, b, tol, id) }
}
/// a <= b + tol
pub fn le(a: f64, b: f64, tol: f64, id: u32) {
    unsafe { irse_le(a, b, tol, id) }
}
/// a == b
pub fn same(a: f64, b: f64, id: u32) {
    unsafe { irse_same(a, b, id) }
}
/// a value compared between symbolic and native runs
pub fn obs(x: f64) {
    unsafe { irse_obs(x) }
}
pub fn obs_i(x: usize) {
    unsafe { irse_obs_i(x as u64) }
}
/// from here on the code under test has to panic
pub fn expect_panic(on: bool) {
    unsafe { irse_expect_panic(on as u32) }
}
pub fn vfile(path: &str, data: &str) {
    unsafe { irse_vfile(path.as_ptr(), path.len() as u64, data.as_ptr(), data.len() as u64) }
}
/// decimal text standing for the value
pub fn token(x: f64) -> String {
    let mut b = vec![0u8; 400];
    let n = unsafe { irse_token(x, b.as_mut_ptr()) } as usize;
    b.truncate(n);
    String::from_utf8(b).unwrap()
}
/// the number written in the text
pub fn parse(s: &str) -> f64 {
    unsafe { irse_parse(s.as_ptr(), s.len() as u64) }
}
pub fn ideal(on: bool) {
    unsafe { irse_ideal(on as u32) }
}
/// from here on concrete numbers are compared by their exact values too: no rounding at all
pub fn exact() {
    unsafe { irse_ideal(2) }
}

#[cfg(feature = "sym")]
mod capture {
    use std::fmt;
    static mut OUT: Vec<u8> = Vec::new();
    struct W;
    impl fmt::Write for W {
        fn write_str(&mut self, s: &str) -> fmt::Result {
            unsafe { (*std::ptr::addr_of_mut!(OUT)).extend_from_slice(s.as_bytes()) };
            Ok(())
        }
    }
    /// the executor sends std's print! here
    #[no_mangle]
    #[inline(never)]
    pub fn irse_print(a: fmt::Arguments) {
        let _ = fmt::write(&mut W, a);
    }
    /// the executor sends the formatting of symbolic numbers here
    #[no_mangle]
    #[inline(never)]
    pub fn irse_fmt_f64(x: &f64, f: &mut fmt::Formatter) -> fmt::Result {
        let mut b = [0u8; 400];
        let mut x = *x;
        if let Some(p) = f.precision() {
            x = unsafe { super::irse_round_dec(x, p as u64) };
        }
        let n = unsafe { super::irse_token(x, b.as_mut_ptr()) } as usize;
        f.write_str(unsafe { std::str::from_utf8_unchecked(&b[..n]) })
    }
    pub fn begin() {
        unsafe { (*std::ptr::addr_of_mut!(OUT)).clear() }
    }
    pub fn end() -> String {
        unsafe { String::from_utf8((*std::ptr::addr_of!(OUT)).clone()).unwrap() }
    }
    #[used]
    static KEEP1: fn(fmt::Arguments) = irse_print;
    #[used]
    static KEEP2: fn(&f64, &mut fmt::Formatter) -> fmt::Result = irse_fmt_f64;
}
#[cfg(not(feature = "sym"))]
mod capture {
    pub use crate::native::{capture_begin as begin, capture_end as end};
}
pub fn capture_begin() {
    capture::begin()
}
pub fn capture_end() -> String {
    capture::end()
}
