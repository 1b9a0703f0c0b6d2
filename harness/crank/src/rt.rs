//! Symbolic runtime. Compiled to bitcode with `--cfg sx`, the `sx_*` calls are intercepted by the
//! symbolic executor; natively the same harness body is driven by the solver's assignment.

#[cfg(sx)]
mod imp {
    extern "C" {
        fn sx_u8() -> u8;
        fn sx_u16() -> u16;
        fn sx_u32() -> u32;
        fn sx_u64() -> u64;
        fn sx_assume(c: bool);
        fn sx_prop(c: bool, m: *const u8, n: usize);
        fn sx_witness(c: bool, m: *const u8, n: usize);
        fn sx_concretize(v: u64) -> u64;
        fn sx_observe(v: u64);
        fn sx_forbid_panic(v: bool);
    }
    pub fn u8_() -> u8 { unsafe { sx_u8() } }
    pub fn u16_() -> u16 { unsafe { sx_u16() } }
    pub fn u32_() -> u32 { unsafe { sx_u32() } }
    pub fn u64_() -> u64 { unsafe { sx_u64() } }
    pub fn assume(c: bool) { unsafe { sx_assume(c) } }
    pub fn prop(c: bool, m: &'static str) { unsafe { sx_prop(c, m.as_ptr(), m.len()) } }
    pub fn witness(c: bool, m: &'static str) { unsafe { sx_witness(c, m.as_ptr(), m.len()) } }
    /// value recorded for the comparison of sampled paths with the native run
    pub fn observe(v: u64) { unsafe { sx_observe(v) } }
    /// while on, a panic of the code under test is a violation
    pub fn forbid_panic(v: bool) { unsafe { sx_forbid_panic(v) } }
    /// split the exploration on every feasible value of `v`
    pub fn split(v: u64) -> u64 { unsafe { sx_concretize(v) } }
}

#[cfg(not(sx))]
mod imp {
    use std::cell::RefCell;
    use std::collections::VecDeque;
    thread_local! { pub static VALS: RefCell<VecDeque<u64>> = RefCell::new(VecDeque::new()); }
    pub fn load(v: Vec<u64>) { VALS.with(|q| *q.borrow_mut() = v.into_iter().collect()); }
    // draws after the failing point are unconstrained: any value will do
    fn next() -> u64 { VALS.with(|q| q.borrow_mut().pop_front()).unwrap_or(0) }
    pub fn u8_() -> u8 { next() as u8 }
    pub fn u16_() -> u16 { next() as u16 }
    pub fn u32_() -> u32 { next() as u32 }
    pub fn u64_() -> u64 { next() }
    thread_local! { pub static OBS: RefCell<Vec<String>> = RefCell::new(vec![]); }
    pub fn observe(v: u64) { OBS.with(|o| o.borrow_mut().push(format!("{:x}", v))); }
    pub fn observed() -> String { OBS.with(|o| o.borrow().join(" ")) }
    pub fn forbid_panic(_v: bool) {}
    pub fn split(v: u64) -> u64 { v }
    pub fn assume(c: bool) {
        if !c { println!("REPLAY-ASSUMPTION-FALSE"); std::process::exit(20); }
    }
    pub fn prop(c: bool, m: &'static str) {
        if !c { println!("REPLAY-VIOLATION: {}", m); std::process::exit(10); }
    }
    pub fn witness(c: bool, m: &'static str) { if c { println!("WITNESS: {}", m); } }
}
pub use imp::*;

pub fn u128_() -> u128 { let lo = u64_(); let hi = u64_(); ((hi as u128) << 64) | lo as u128 }
pub fn i64_() -> i64 { u64_() as i64 }
pub fn bool_() -> bool { u8_() & 1 != 0 }
pub fn key4() -> [u64; 4] { [u64_(), u64_(), u64_(), u64_()] }
pub fn u64_max(m: u64) -> u64 { let v = u64_(); assume(v <= m); v }
pub fn u64_in(lo: u64, hi: u64) -> u64 { let v = u64_(); assume(v >= lo && v <= hi); v }
/// an n-bit value (fewer solver variables than a range assumption)
pub fn bits(n: u32) -> u64 {
    let v = if n <= 8 { u8_() as u64 } else if n <= 16 { u16_() as u64 } else if n <= 32 { u32_() as u64 } else { u64_() };
    v & (u64::MAX >> (64 - n))
}
/// small choice 0..n, explored value by value
pub fn choose(n: u8) -> u8 { let v = u8_(); assume(v < n); split(v as u64) as u8 }

#[macro_export]
macro_rules! prop { ($c:expr, $m:literal) => { $crate::rt::prop($c, $m) }; }
#[macro_export]
macro_rules! witness { ($c:expr, $m:literal) => { $crate::rt::witness($c, $m) }; }
