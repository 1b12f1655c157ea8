#![allow(dead_code)]
//! Scenarios on words and wordlist files.
mod sym;
mod chars;
mod load;

#[no_mangle]
#[inline(never)]
pub extern "C" fn sym_main(scn: u64, a: u64, b: u64, c: u64, d: u64) { run(scn, a, b, c, d) }
fn run(scn: u64, a: u64, b: u64, c: u64, d: u64) {
    match scn {
        130 => chars::ascii(a, b, c, d),
        131 => chars::unicode(a, b, c, d),
        132 => chars::single(a, b, c, d),
        140 => load::file(a, b, c, d),
        141 => load::tiers(a, b, c, d),
        _ => sym::fail(9999),
    }
}
include!("driver.rs");
