//! The interface between harness code and the symbolic executor.
//!
//! Under the executor these are undefined symbols it models; in a native
//! build (feature `native`) they replay a recorded list of values.
#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        fn sym_u8() -> u8;
        fn sym_u64() -> u64;
        fn sym_range(lo: u8, hi: u8) -> u8;
        fn sym_choose(n: u8) -> u8;
        fn sym_assume(c: u8);
        fn sym_fail(id: u64) -> !;
        fn sym_assert(c: u8, id: u64);
        fn sym_cover(id: u32);
        fn sym_observe(v: u64);
        fn sym_concretize(v: u64) -> u64;
        fn sym_decide(c: u8) -> u8;
    }
    /// Any byte.
    #[inline(always)] pub fn u8_() -> u8 { unsafe { sym_u8() } }
    #[inline(always)] pub fn u64_() -> u64 { unsafe { sym_u64() } }
    /// Any byte in lo..=hi.
    #[inline(always)] pub fn range(lo: u8, hi: u8) -> u8 { unsafe { sym_range(lo, hi) } }
    /// Any of 0..n, one path per value (structure choices).
    #[inline(always)] pub fn choose(n: u8) -> u8 { unsafe { sym_choose(n) } }
    #[inline(always)] pub fn assume(c: bool) { unsafe { sym_assume(c as u8) } }
    #[inline(always)] pub fn fail(id: u64) -> ! { unsafe { sym_fail(id) } }
    #[inline(always)] pub fn check(c: bool, id: u64) { unsafe { sym_assert(c as u8, id) } }
    #[inline(always)] pub fn cover(id: u32) { unsafe { sym_cover(id) } }
    #[inline(always)] pub fn observe(v: u64) { unsafe { sym_observe(v) } }
    #[inline(always)] pub fn concretize(v: u64) -> u64 { unsafe { sym_concretize(v) } }
    /// bit 0: can be true, bit 1: can be false.
    #[inline(always)] pub fn decide(c: bool) -> u8 { unsafe { sym_decide(c as u8) } }
    #[inline(always)] pub fn note(_: impl FnOnce() -> String) {}
    extern "C" { fn sym_isconst(v: u64) -> u8; }
    /// False only if the value is known to be zero (never forks).
    #[inline(always)] pub fn const_nonzero(v: u8) -> bool { unsafe { sym_isconst(v as u64) == 0 || v != 0 } }
}

#[cfg(feature = "native")]
mod imp {
    use std::cell::RefCell;
    #[derive(Default)]
    pub struct Replay { pub vals: Vec<u64>, pub pos: usize, pub obs: Vec<u64>, pub covers: Vec<u32>, pub notes: Vec<String> }
    thread_local!(pub static R: RefCell<Replay> = RefCell::new(Replay::default()));
    pub struct Failed(pub u64);
    pub struct Assumed;
    fn next() -> u64 {
        R.with(|r| { let mut r = r.borrow_mut(); let p = r.pos; r.pos += 1; r.vals.get(p).cloned() })
            .unwrap_or_else(|| std::panic::panic_any(Assumed))
    }
    pub fn u8_() -> u8 { next() as u8 }
    pub fn u64_() -> u64 { next() }
    pub fn range(lo: u8, hi: u8) -> u8 { let v = next() as u8; if lo > hi || v < lo || v > hi { std::panic::panic_any(Assumed) } v }
    pub fn choose(n: u8) -> u8 { let v = next() as u8; if v >= n { std::panic::panic_any(Assumed) } v }
    pub fn assume(c: bool) { if !c { std::panic::panic_any(Assumed) } }
    pub fn fail(id: u64) -> ! { std::panic::panic_any(Failed(id)) }
    pub fn check(c: bool, id: u64) { if !c { std::panic::panic_any(Failed(id)) } }
    pub fn cover(id: u32) { R.with(|r| { let mut r = r.borrow_mut(); if !r.covers.contains(&id) { r.covers.push(id) } }) }
    pub fn observe(v: u64) { R.with(|r| r.borrow_mut().obs.push(v)) }
    /// Something for the report of a replay.
    pub fn note(f: impl FnOnce() -> String) { let s = f(); R.with(|r| { let mut r = r.borrow_mut(); if r.notes.len() < 40 && !r.notes.contains(&s) { r.notes.push(s) } }) }
    pub fn concretize(v: u64) -> u64 { v }
    pub fn decide(c: bool) -> u8 { if c { 1 } else { 2 } }
    pub fn const_nonzero(v: u8) -> bool { v != 0 }
}
pub use imp::*;
