//! Scenarios on wordlist files (C14). Under the executor the file is a buffer behind open, read and close.
use crate::sym;
use noodle::words::load_wordlist;
use noodle::Word;

#[cfg(not(feature = "native"))]
mod file {
    pub static mut CONTENT: Vec<u8> = Vec::new();
    static mut POS: usize = 0;
    static mut OPEN: bool = false;
    #[no_mangle] pub unsafe extern "C" fn open64(_: *const u8, _: i32, _: i32) -> i32 { OPEN = true; POS = 0; 7 }
    #[no_mangle] pub unsafe extern "C" fn read(fd: i32, to: *mut u8, n: usize) -> isize {
        if fd != 7 || !OPEN { return -1 }
        let c = &*std::ptr::addr_of!(CONTENT);
        let k = n.min(c.len() - POS);
        std::ptr::copy_nonoverlapping(c.as_ptr().add(POS), to, k);
        POS += k; k as isize
    }
    #[no_mangle] pub unsafe extern "C" fn fcntl(_: i32, _: i32, _: i32) -> i32 { 0 }
    #[no_mangle] pub unsafe extern "C" fn close(_: i32) -> i32 { OPEN = false; 0 }
}
/// The decompression library, for frames of one stored block as `frame` makes them.
#[cfg(not(feature = "native"))]
mod zstd {
    #[repr(C)] pub struct Buffer { p: *mut u8, size: usize, pos: usize }
    static mut HEAD: usize = 0;
    static mut LEFT: usize = 0;
    static mut CONTEXT: u64 = 0;
    #[no_mangle] pub unsafe extern "C" fn ZSTD_createDCtx() -> *mut u64 { HEAD = 0; std::ptr::addr_of_mut!(CONTEXT) }
    #[no_mangle] pub unsafe extern "C" fn ZSTD_createDStream() -> *mut u64 { ZSTD_createDCtx() }
    #[no_mangle] pub unsafe extern "C" fn ZSTD_initDStream(_: *mut u64) -> usize { HEAD = 0; 9 }
    #[no_mangle] pub unsafe extern "C" fn ZSTD_DCtx_loadDictionary(_: *mut u64, _: *const u8, _: usize) -> usize { 0 }
    #[no_mangle] pub unsafe extern "C" fn ZSTD_DCtx_reset(_: *mut u64, _: i32) -> usize { HEAD = 0; 0 }
    #[no_mangle] pub unsafe extern "C" fn ZSTD_freeDCtx(_: *mut u64) -> usize { 0 }
    #[no_mangle] pub unsafe extern "C" fn ZSTD_freeDStream(_: *mut u64) -> usize { 0 }
    #[no_mangle] pub unsafe extern "C" fn ZSTD_isError(n: usize) -> u32 { (n > usize::MAX - 200) as u32 }
    #[no_mangle] pub unsafe extern "C" fn ZSTD_DStreamInSize() -> usize { 131075 }
    #[no_mangle] pub unsafe extern "C" fn ZSTD_DStreamOutSize() -> usize { 131072 }
    #[no_mangle] pub unsafe extern "C" fn ZSTD_getErrorName(_: usize) -> *const u8 { b"bad frame\0".as_ptr() }
    #[no_mangle] pub unsafe extern "C" fn ZSTD_decompressStream(_: *mut u64, to: *mut Buffer, from: *mut Buffer) -> usize {
        let (to, from) = (&mut *to, &mut *from);
        loop {
            if HEAD == 9 && LEFT == 0 { HEAD = 0; return 0 }
            if from.pos >= from.size || HEAD == 9 && to.pos >= to.size { return if HEAD == 0 { 0 } else { LEFT + 1 } }
            let b = *from.p.add(from.pos); from.pos += 1;
            match HEAD {
                9 => { *to.p.add(to.pos) = b; to.pos += 1; LEFT -= 1; continue }
                6 => LEFT = b as usize >> 3,
                7 => LEFT += (b as usize) << 5,
                k => if k < 5 && b != [0x28, 0xb5, 0x2f, 0xfd, 0x20][k] { return usize::MAX },
            }
            HEAD += 1;
        }
    }
}
/// A compressed file of `content`, in which it is stored as it is.
fn frame(content: &[u8]) -> Vec<u8> {
    let n = content.len(); assert!(n < 256);
    let mut v = vec![0x28, 0xb5, 0x2f, 0xfd, 0x20, n as u8, (n << 3) as u8 | 1, (n >> 5) as u8, 0];
    v.extend_from_slice(content);
    v
}
fn load(content: Vec<u8>) -> Vec<Word> { load_as(content, "list.txt") }
fn load_as(content: Vec<u8>, name: &str) -> Vec<Word> {
    #[cfg(not(feature = "native"))]
    { unsafe { file::CONTENT = content; } load_wordlist(format!("/{}", name)).unwrap_or_default() }
    #[cfg(feature = "native")]
    {
        let d = std::env::temp_dir().join(format!("noodle-wordlist-{}", std::process::id()));
        std::fs::create_dir_all(&d).unwrap();
        let f = d.join(name);
        std::fs::write(&f, &content).unwrap();
        let r = std::panic::catch_unwind(|| load_wordlist(f.clone()));
        let _ = std::fs::remove_file(&f); let _ = std::fs::remove_dir(&d);
        match r { Ok(r) => r.unwrap_or_default(), Err(e) => std::panic::resume_unwind(e) }
    }
}
fn class(b: u8) -> u8 {
    let l = b | 0x20;
    if l >= b'a' && l <= b'z' { l - b'a' } else if b == b' ' || b == b'_' { 27 } else { 26 }
}
struct Want { text: Vec<u8>, classes: Vec<u8>, count: Option<u32>, later: bool }
/// Characters outside ASCII and what they stand for.
const ODD: &[(&str, &[u8])] = &[("\u{e9}", &[4]), ("\u{e6}", &[0, 4]), ("\u{df}", &[18, 18]), ("\u{301}", &[]), ("\u{436}", &[26]), ("\u{fb01}", &[5, 8]), ("\u{bd}", &[26, 26, 26]), ("\u{a0}", &[27]), ("\u{65e5}", &[26]), ("\u{1d400}", &[0])];
fn same(w: &Word, x: &Want) -> bool {
    let t = w.text.as_bytes();
    if t.len() != x.text.len() || w.chars.len() != x.classes.len() + 1 { return false }
    let mut ok = true;
    for (a, b) in t.iter().zip(&x.text) { ok &= a == b }
    for (a, b) in w.chars.iter().zip(&x.classes) { ok &= a.as_index() as u8 == *b }
    ok &= w.chars[x.classes.len()].as_index() == 27;
    if let Some(c) = x.count { ok &= w.score == c }
    ok & (w.tranche == x.later as u8)
}
/// Up to `a` lines: words of up to `b` printable characters, plain or behind a count and a tab, with any line ends (`c` = 1), compressed in one or two frames (`c` = 2, 3), with tabs anywhere (`d` = 1), with characters outside ASCII (`d` = 2), or `d` letters longer (100 and more).
pub fn file(a: u64, b: u64, c: u64, d: u64) {
    let n = sym::choose(a as u8 + 1);
    let mut content = vec![]; let mut want: Vec<Want> = vec![];
    let ends = if c == 1 { sym::choose(3) } else { 0 };
    for i in 0..n {
        let kind = sym::choose(if d == 1 { 6 } else if d == 2 { 2 } else { 3 });
        let mut count = None;
        let mut text = vec![];
        match kind {
            0 => {}
            1 => { let k = sym::range(b'0', b'9'); content.push(k); content.push(b'\t'); count = Some((k - b'0') as u32) }
            2 => { let k = sym::range(b'1', b'9'); let l = sym::range(b'0', b'9'); content.push(k); content.push(l); content.push(b'\t'); count = Some((k - b'0') as u32 * 10 + (l - b'0') as u32) }
            3 => { content.extend_from_slice(b"4294967295\t"); count = Some(!0) }
            // too large for a count: the column belongs to the word, which has digits then
            4 => text.extend_from_slice(b"4294967296\t"),
            // a column that is no number belongs to the word
            _ => { let k = sym::range(32, 126); sym::assume(!(k >= b'0' && k <= b'9')); let l = sym::range(b'a', b'z'); for x in [k, l, b'\t'] { text.push(x) } }
        }
        let m = sym::choose(b as u8 + 1);
        let mut classes: Vec<u8> = text.iter().map(|x| class(*x)).collect();
        // long lines
        if d >= 100 { for _ in 0..d { text.push(b'e'); classes.push(4) } }
        for _ in 0..m {
            let k = if d == 2 { sym::choose(ODD.len() as u8 + 1) as usize } else { 0 };
            if k > 0 { text.extend_from_slice(ODD[k - 1].0.as_bytes()); classes.extend_from_slice(ODD[k - 1].1) }
            else { let x = sym::range(32, 126); text.push(x); classes.push(class(x)) }
        }
        content.extend_from_slice(&text);
        if ends != 1 || i + 1 < n { if ends == 2 { content.push(b'\r') } content.push(b'\n') }
        let mut digit = false; let mut later = false;
        for x in &text { digit |= *x >= b'0' && *x <= b'9'; later |= !(*x >= b'a' && *x <= b'z') }
        let short = classes.len() <= 1 && !(text.len() == 1 && (text[0] == b'I' || text[0] == b'a'));
        if digit || short { continue }
        want.push(Want { text, classes, count, later });
    }
    sym::note(|| format!("file {:?}", String::from_utf8_lossy(&content)));
    let got = match c {
        2 => load_as(frame(&content), "list.tsv.zst"),
        3 => { let k = sym::choose(content.len() as u8 + 1) as usize; let mut v = frame(&content[..k]); v.extend(frame(&content[k..])); load_as(v, "words.zst") }
        _ => load(content),
    };
    sym::observe(got.len() as u64);
    for w in &got { sym::observe(w.tranche as u64); sym::observe(w.chars.len() as u64); for x in w.text.bytes() { sym::observe(x as u64) } }
    sym::cover(if n == 0 { 1 } else if want.len() < n as usize { 2 } else { 3 });
    if got.len() != want.len() { sym::fail(1401) }
    for i in 1..got.len() { sym::check(got[i - 1].tranche <= got[i].tranche, 1402) }
    let mut used = vec![false; got.len()];
    // words with a count first: the score of the others is not fixed
    for x in want.iter().filter(|x| x.count.is_some()).chain(want.iter().filter(|x| x.count.is_none())) {
        match (0..got.len()).find(|i| !used[*i] && same(&got[*i], x)) { Some(i) => used[i] = true, None => sym::fail(1403) }
    }
}
/// A file of `a` words of which the one at `b - c / 2 + (0..c)` is arbitrary: tiers by position.
pub fn tiers(a: u64, b: u64, c: u64, _: u64) {
    let p = b as usize - c as usize / 2 + sym::choose(c as u8) as usize;
    let x = sym::range(33, 126); let y = b'b';
    sym::assume(!(x >= b'0' && x <= b'9'));
    let mut content = vec![];
    let num = |n: usize, to: &mut Vec<u8>| { let mut k = 100000; while k > 0 { to.push(b'0' + (n / k % 10) as u8); k /= 10 } };
    for i in 0..a as usize {
        num(i, &mut content); content.push(b'\t');
        if i == p { content.push(x); content.push(y) } else { content.push(b'a'); content.push(b'b') }
        content.push(b'\n');
    }
    sym::note(|| format!("{} words, number {} is {:?}", a, p, [x as char, y as char]));
    let got = load(content);
    if got.len() != a as usize { sym::fail(1401) }
    let mut tier = vec![255u8; a as usize];
    let mut last = 0u8;
    for w in &got {
        sym::check(last <= w.tranche, 1402); last = w.tranche;
        let i = w.score as usize;
        if i >= tier.len() || tier[i] != 255 { sym::fail(1403) }
        tier[i] = w.tranche;
    }
    let lower = x >= b'a' && x <= b'z';
    sym::cover(if lower { 1 } else { 2 });
    // the arbitrary word: as its neighbours, or one later
    let around = (tier[p - 1], tier[p + 1]);
    let t = if lower { tier[p] } else { sym::check(tier[p] >= 1, 1411); tier[p] - 1 };
    sym::check(around.0 <= t && t <= around.1, 1411);
    tier[p] = t;
    sym::check(tier[0] == 0, 1412);
    for i in 1..a as usize { sym::check(tier[i - 1] <= tier[i] && tier[i] <= tier[i - 1] + 1, 1413) }
    sym::observe(tier[a as usize - 1] as u64);
    // each tier is half as large again as the one before
    let mut size = vec![0usize; tier[a as usize - 1] as usize + 1];
    for t in &tier { size[*t as usize] += 1 }
    sym::check(size[0] >= 9000 && size[0] <= 11000 || size.len() == 1 && size[0] <= 11000, 1415);
    for i in 1..size.len() {
        sym::check(size[i] <= size[i - 1] * 8 / 5, 1415);
        if i + 1 < size.len() { sym::check(size[i] >= size[i - 1] * 7 / 5, 1415) }
    }
    if a >= 20000 { sym::check(tier[a as usize - 1] > 0, 1414) }
}
