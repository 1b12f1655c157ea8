#![allow(dead_code)]
mod sym;
mod oracle;
mod util;
mod single;
mod multi;
mod text;
mod runs;
mod lines;

#[no_mangle]
#[inline(never)]
pub extern "C" fn sym_main(scn: u64, a: u64, b: u64, c: u64, d: u64) { run(scn, a, b, c, d) }
fn run(scn: u64, a: u64, b: u64, c: u64, d: u64) {
    match scn {
        1 => single::regex(a, b, c, d),
        2 => single::wide_automaton(a, b, c, d),
        3 => multi::fuzzy_list(a, b, c, d),
        4 => single::fuzzy(a, b, c, d),
        5 => multi::conj(a, b, c, d),
        13 => multi::crowd_history(a, b, c, d),
        12 => multi::crowded(a, b, c, d),
        6 => multi::phrases(a, b, c, d),
        7 => multi::order(a, b, c, d),
        15 => single::counted(a, b, c, d),
        16 => multi::deep(a, b, c, d),
        14 => multi::far(a, b, c, d),
        8 => multi::history(a, b, c, d),
        9 => multi::grown(a, b, c, d),
        10 => runs::deadlines(a, b, c, d),
        11 => runs::protocol(a, b, c, d),
        17 => runs::progress(a, b, c, d),
        18 => runs::totality(a, b, c, d),
        30 => text::anagram_line(a, b, c, d),
        31 => text::anagram_embedded(a, b, c, d),
        32 => text::anagram_big(a, b, c, d),
        40 => text::options(a, b, c, d),
        41 => text::enumeration(a, b, c, d),
        190 => text::syntax(a, b, c, d),
        191 => text::precedence(a, b, c, d),
        110 => lines::any_text(a, b, c, d),
        111 => lines::numbers(a, b, c, d),
        112 => lines::error_line(a, b, c, d),
        113 => lines::deep(a, b, c, d),
        150 => lines::decorated(a, b, c, d),
        151 => lines::macros(a, b, c, d),
        152 => lines::pragmas(a, b, c, d),
        153 => lines::inline(a, b, c, d),
        154 => lines::line_and(a, b, c, d),
        120 => text::roundtrip_tree(a, b, c, d),
        121 => text::roundtrip_text(a, b, c, d),
        122 => text::roundtrip_anagram(a, b, c, d),
        _ => sym::fail(9999),
    }
}
include!("driver.rs");
