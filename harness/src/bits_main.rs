#![allow(dead_code)]
//! Scenarios on the bit sets, which are private to noodle: its source file is a module here.
mod sym;
#[path = "/repo/noodle/src/bitset.rs"]
#[allow(clippy::all)]
mod bitset;
mod bits;

#[no_mangle]
#[inline(never)]
pub extern "C" fn sym_main(scn: u64, a: u64, b: u64, c: u64, d: u64) { run(scn, a, b, c, d) }
fn run(scn: u64, a: u64, b: u64, c: u64, d: u64) {
    match scn {
        160 => bits::one_d(a, b, c, d),
        161 => bits::two_d(a, b, c, d),
        162 => bits::three_d(a, b, c, d),
        164 => bits::compact(a, b, c, d),
        163 => bits::copies(a, b, c, d),
        _ => sym::fail(9999),
    }
}
include!("driver.rs");
