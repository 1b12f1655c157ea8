//! Scenarios on words made from text and on single characters (C13).
use crate::sym;
use noodle::words::{Char, CharBitset};
use noodle::Word;

const PUNCT: u8 = 26;
const END: u8 = 27;
/// What each character of the planes 0 and 1 stands for, made by gen_nfkd.py from
/// Python's Unicode data: offsets of 16 bits (0xffff: no character), then entries of length and classes.
static TABLE: &[u8] = include_bytes!("nfkd.bin");
const ENTRIES: usize = 0x20000;

fn ascii_class(b: u8) -> u8 {
    let l = b | 0x20;
    if l >= b'a' && l <= b'z' { l - b'a' } else if b == b' ' || b == b'_' { END } else { PUNCT }
}
fn compare(w: &Word, text: &str, want: &[u8], tier: u8, score: u32) {
    sym::check(w.tranche == tier, 1301);
    sym::check(w.score == score, 1302);
    sym::check(w.text.as_bytes().len() == text.len(), 1303);
    let mut same = true;
    for (x, y) in w.text.as_bytes().iter().zip(text.as_bytes()) { same &= x == y }
    sym::check(same, 1303);
    sym::observe(w.chars.len() as u64);
    for c in w.chars.iter() { sym::observe(c.as_index() as u64) }
    if w.chars.len() != want.len() + 1 { sym::fail(1304) }
    for (c, x) in w.chars.iter().zip(want) { sym::check(c.as_index() as u8 == *x, 1305) }
    sym::check(w.chars[want.len()].as_index() as u8 == END, 1306);
}
/// Text of up to `a` ASCII characters between `b` fixed ones, any tier and score.
pub fn ascii(a: u64, b: u64, c: u64, _: u64) {
    let mut s = vec![]; let mut want = vec![];
    let fixed = |n: u64, s: &mut Vec<u8>, want: &mut Vec<u8>| for i in 0..n { let x = b"aZ q-_9Mno pqR'stuvwx"[i as usize % 21]; s.push(x); want.push(ascii_class(x)) };
    fixed(b, &mut s, &mut want);
    let n = if c == 1 { a as u8 } else { sym::choose(a as u8 + 1) };
    for _ in 0..n {
        let x = sym::range(0, 127);
        s.push(x);
        want.push(ascii_class(x));
    }
    fixed(b, &mut s, &mut want);
    let tier = sym::u8_(); let score = sym::u64_() as u32;
    let text = unsafe { String::from_utf8_unchecked(s) };
    sym::note(|| format!("word {:?}", text));
    let w = Word::new(&text, tier, score);
    sym::cover(if want.iter().all(|x| *x < 26) { 1 } else { 2 });
    compare(&w, &text, &want, tier, score);
}
/// Where the classes of one character are, or nothing if there is no such character.
fn classes(c: u32) -> Option<usize> {
    let i = c as usize;
    let o = TABLE[2 * i] as usize | (TABLE[2 * i + 1] as usize) << 8;
    if o == 0xffff { None } else { Some(2 * ENTRIES + o) }
}
/// One arbitrary character of the 64 from `64 a` on (or of the `d` blocks from there on), and one from `64 b` on, if not 0, with `c` letters in front and behind.
pub fn unicode(a: u64, b: u64, c: u64, d: u64) {
    let a = if d > 1 { a + sym::choose(d as u8) as u64 } else { a };
    let mut text = String::new(); let mut want = vec![];
    let letters = |text: &mut String, want: &mut Vec<u8>| for i in 0..c { text.push(['E', 'o', ' '][i as usize % 3]); want.push([4, 14, END][i as usize % 3]) };
    letters(&mut text, &mut want);
    let mut os = vec![];
    for x in [a, b] {
        if x == 0 && !(x == a && b == 0) { continue }
        let cp = x as u32 * 64 + sym::range(0, 63) as u32;
        let o = match classes(cp) { Some(o) => o, None => { sym::assume(false); 0 } };
        text.push(unsafe { char::from_u32_unchecked(cp) });
        os.push(o);
        if a == b || b == 0 { break }
    }
    for o in os {
        // one path per length
        let n = sym::concretize(TABLE[o] as u64) as usize;
        if n == 0 { sym::cover(3) } else if n > 1 { sym::cover(2) } else { sym::cover(1) }
        for k in 0..n { want.push(TABLE[o + 1 + k]) }
    }
    letters(&mut text, &mut want);
    sym::note(|| format!("word {:?} U+{:04X}", text, text.chars().map(|x| x as u32).max().unwrap_or(0)));
    let w = Word::new(&text, 3, 77);
    compare(&w, &text, &want, 3, 77);
}
/// Characters by themselves: 0 from any character, 1 by number, 2 and 3 sets of characters, 4 display.
pub fn single(a: u64, b: u64, _: u64, _: u64) {
    match a {
        0 => {
            let v = sym::u64_() as u32;
            sym::assume(v < 0x110000 && !(v >= 0xd800 && v < 0xe000));
            let c = unsafe { char::from_u32_unchecked(v) };
            sym::note(|| format!("character {:?}", c));
            let want = if v < 128 { ascii_class(v as u8) } else { PUNCT };
            let got = Char::from(c).as_index() as u8;
            sym::observe(got as u64);
            sym::cover(if want < 26 { 1 } else { 2 });
            sym::check(got == want, 1311);
        }
        1 => {
            let i = sym::range(0, 27);
            let c = Char::from_index(i as usize);
            sym::check(c.as_index() == i as usize, 1312);
            let x = c.into_char();
            sym::check(x as u32 == if i < 26 { 'a' as u32 + i as u32 } else if i == 26 { '\'' as u32 } else { '_' as u32 }, 1313);
            sym::check(Char::from(x) == c, 1314);
            let y: char = (&c).into();
            sym::check(x == y, 1315);
            sym::cover(if i < 26 { 1 } else { 2 });
            let j = sym::range(0, 27);
            let d = Char::from_index(j as usize);
            sym::check((c == d) == (i == j), 1316);
            sym::check((c < d) == (i < j), 1317);
        }
        2 => {
            // two sets of up to b characters each, then one operation, then any question
            let make = || {
                let mut s = CharBitset::EMPTY; let mut m = 0u32;
                for _ in 0..b { let i = sym::range(0, 27); s.union_with(CharBitset::from(Char::from_index(i as usize))); m |= 1 << i; }
                match sym::choose(4) {
                    0 => {}
                    1 => { s.union_with(CharBitset::LETTERS); m |= 0x3ffffff }
                    2 => { s.union_with(CharBitset::ALL); m |= 0xfffffff }
                    _ => { s.union_with(CharBitset::LETTERS_BUT_I); m |= 0x3ffffff & !(1 << 8) }
                }
                (s, m)
            };
            let (mut s, mut m) = make(); let (t, n) = make();
            match sym::choose(4) {
                0 => { s.union_with(t); m |= n }
                1 => { s.difference_with(t); m &= !n }
                2 => { s.invert(); m ^= 0x3ffffff }
                _ => {}
            }
            sym::check(s.is_intersecting(t) == (m & n != 0), 1321);
            let i = sym::range(0, 27);
            sym::check(s.contains(Char::from_index(i as usize)) == (m >> i & 1 != 0), 1322);
            sym::check((s == t) == (m == n), 1323);
            sym::cover(1);
            sym::observe(m as u64);
        }
        3 => {
            // ranges of letters in either case
            let up = sym::choose(2); let l = sym::choose(26); let h = sym::choose(26);
            let base = if up == 1 { b'A' } else { b'a' };
            let s = CharBitset::from_range((base + l) as char, (base + h) as char);
            let i = sym::range(0, 27);
            sym::check(s.contains(Char::from_index(i as usize)) == (l <= i && i <= h), 1324);
            sym::cover(if l <= h { 1 } else { 2 });
        }
        _ => {
            let n = sym::choose(b as u8 + 1) as usize;
            let mut s = String::new();
            for _ in 0..n { s.push(sym::range(32, 126) as char) }
            let w = Word::new(&s, 0, 0);
            let t = format!("{}", w);
            let t = t.as_bytes();
            sym::check(t.len() == 2 * n + 4, 1331);
            let mut same = true;
            for (i, x) in s.bytes().enumerate() {
                same &= t[i] == x;
                let k = ascii_class(x);
                same &= t[n + 2 + i] == if k < 26 { b'a' + k } else if k == PUNCT { b'\'' } else { b'_' };
            }
            same &= t[n] == b' ' && t[n + 1] == b'(' && t[2 * n + 2] == b'_' && t[2 * n + 3] == b')';
            sym::check(same, 1332);
            sym::cover(1);
        }
    }
}
