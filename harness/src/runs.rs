//! Driving a query: deadlines, protocol, progress, totality.
use crate::multi::*;
use crate::oracle::*;
use crate::sym;
use crate::util::*;
use noodle::{QueryEvaluator, QueryResponse};
use std::time::{Duration, Instant};

// ---- the clock: time stands still, except that it jumps past any deadline
// just before certain reads, whose numbers are arbitrary
static mut NOW: u64 = 1000;
static mut ON: bool = false;
static mut AT: [u64; 3] = [u64::MAX; 3];
static mut DONE: u64 = 0;
static mut READS: u64 = 0;
#[repr(C)]
pub struct Ts { sec: u64, nsec: u64 }
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn clock_gettime(_clk: i32, ts: *mut Ts) -> i32 {
    if ON {
        READS += 1;
        if DONE < 3 && READS == AT[DONE as usize] { DONE += 1; NOW += 1000; }
    }
    (*ts).sec = NOW;
    (*ts).nsec = 0;
    0
}
fn clock(on: bool) { unsafe { ON = on } }
/// `jumps` jumps, each an arbitrary number (1..=256) of reads after the one before.
fn clock_init(jumps: u64) {
    let mut at = [u64::MAX; 3];
    let mut t = 0;
    for i in 0..jumps as usize { t += sym::range(0, 255) as u64 + 1; at[i] = t }
    unsafe { NOW = 1000; ON = false; AT = at; DONE = 0; READS = 0 }
}
fn jumps() -> u64 { unsafe { DONE } }

pub struct Seq { pub hits: Vec<Vec<u32>>, pub completes: u32, pub timeouts: u64, pub logs: u32 }
/// Runs to completion with deadlines; `mode` 1: every second call has none.
fn run_interrupted(q: &mut QueryEvaluator, mode: u64, cap: u32, id: u64) -> Seq {
    let mut s = Seq { hits: vec![], completes: 0, timeouts: 0, logs: 0 };
    let mut n = 0;
    loop {
        n += 1;
        if n > cap { sym::fail(id) }
        let deadline = if mode == 1 && n % 2 == 0 { None } else { Some(Instant::now() + Duration::from_secs(10)) };
        let before = jumps();
        clock(true);
        let r = q.next_within_deadline(deadline);
        clock(false);
        match r {
            QueryResponse::Match(p) => s.hits.push(p.iter().map(|w| w.score).collect()),
            QueryResponse::Logs(_) => s.logs += 1,
            QueryResponse::Timeout => {
                s.timeouts += 1;
                // a timeout without the deadline having passed
                if jumps() == before { sym::fail(id + 1) }
            }
            QueryResponse::Complete(_) => { s.completes += 1; break }
        }
    }
    s
}
/// Lists with a few arbitrary letters among many concrete words.
/// a: fam, b: list (shape, or 1000+n: n words with one arbitrary one), c: depth, d: jumps + 10*mode
pub fn deadlines(fam: u64, shape: u64, depth: u64, jm: u64) {
    let e = if fam == 99 { wide() } else { family(fam) };
    let l = if shape >= 2_000_000_000 { pairs(shape - 2_000_000_000) } else if shape >= 1_000_000_000 { many(shape - 1_000_000_000) } else { list(shape, 0, &|| letter()) };
    let limit = if jm >= 100 { Some(jm as usize / 100) } else { None };
    let jm = jm % 100;
    let again = exprs(&e);
    let mut q = QueryEvaluator::new(exprs(&e), &l.words, depth as usize, limit);
    let plain = collect(&mut q, 100000, 902);
    observe_out(&plain);
    clock_init(jm % 10);
    let mut q = QueryEvaluator::new(again, &l.words, depth as usize, limit);
    let s = run_interrupted(&mut q, jm / 10, 100000, 903);
    sym::observe(s.timeouts);
    sym::observe(jumps());
    sym::cover(if s.timeouts > 0 { 1 } else { 2 });
    if s.timeouts > 1 { sym::cover(3) }
    if s.timeouts > 0 && plain.hits.iter().any(|h| h.len() > 1) { sym::cover(4) }
    sym::note(|| format!("interrupted {} times; results {:?}, without deadlines {:?}", s.timeouts, s.hits, plain.hits));
    if s.hits != plain.hits { sym::fail(901) }
    if s.completes != plain.completes { sym::fail(905) }
    if q.next().is_some() { sym::fail(906) }
}
/// From n - 1 to n + 6 different words of two letters, then "zz" (so that the number of steps between
/// two results takes every value in a range).
pub fn pairs(n: u64) -> L {
    let n = n - 1 + sym::choose(8) as u64;
    let mut l = L { chars: vec![], words: vec![] };
    for i in 0..n + 1 {
        let c: Vec<u8> = if i == n { vec![25, 25, END] } else { vec![(i / 20) as u8, (i % 20) as u8, END] };
        l.words.push(word(&c, 0, i as u32));
        l.chars.push(c);
    }
    l
}
/// `n` words of one letter (a, b, c...), the last of them arbitrary but new.
pub fn alphabet(n: u64) -> L {
    let mut l = L { chars: vec![], words: vec![] };
    for i in 0..n {
        let c = vec![if i + 1 == n { sym::range(i as u8, 25) } else { i as u8 }, END];
        l.words.push(word(&c, 0, i as u32));
        l.chars.push(c);
    }
    l
}
/// `n` words: mostly concrete, with common prefixes; one arbitrary two-letter word in the middle.
pub fn many(n: u64) -> L {
    let mut l = L { chars: vec![], words: vec![] };
    let at = n / 2;
    for i in 0..n {
        let mut c: Vec<u8> = vec![];
        if i == at { c.push(letter()); c.push(letter()) }
        else { let mut x = i; for _ in 0..3 { c.push((x % 3) as u8); x /= 3 } if i % 5 == 0 { c.truncate(1) } }
        c.push(END);
        l.words.push(word(&c, (i * 3 / n) as u8, i as u32));
        l.chars.push(c);
    }
    l
}

/// C10: the sequence of responses, and limits. lim: 0..=8 result limit, 9 none, +10: asked through the text, +20: set on the evaluator
pub fn protocol(fam: u64, shape: u64, depth: u64, lim: u64) {
    let e = if fam == 99 { wide() } else { family(fam) };
    let l = list(shape, 0, &|| letter());
    let limit = if lim % 10 == 9 { None } else { Some((lim % 10) as usize) };
    let d = depth as usize;
    let how = lim / 10;
    let text;
    let ast;
    let mut q = match how {
        0 => QueryEvaluator::new(exprs(&e), &l.words, d, limit),
        1 => {
            let mut s = String::new();
            let pragma = |s: &mut String| {
                if let Some(x) = limit { s.push_str(&format!("#limit {}\n", x)) }
                s.push_str(&format!("#words {}\n", d));
            };
            let first = sym::choose(2) == 0;
            if first { pragma(&mut s) }
            for (o, opt) in &e { s.push_str(&line(o, *opt)); s.push('\n') }
            if !first { pragma(&mut s) }
            text = s;
            ast = parse(&text, 1003);
            QueryEvaluator::from_ast(&ast, &l.words)
        }
        _ => {
            let mut q = QueryEvaluator::new(exprs(&e), &l.words, 3, Some(1));
            q.set_search_depth_limit(d);
            q.set_results_limit(limit);
            q
        }
    };
    let again = exprs(&e);
    let mut matches = 0usize;
    let mut completes = 0;
    let mut steps = 0;
    let by_deadline = sym::choose(2) == 1;
    loop {
        steps += 1;
        if steps > 100000 { sym::fail(1002) }
        let r = if by_deadline { Some(q.next_within_deadline(None)) } else { q.next() };
        match r {
            None => { if completes != 1 { sym::fail(1004) } break }
            Some(QueryResponse::Match(p)) => {
                matches += 1;
                if completes > 0 { sym::fail(1005) }
                if p.is_empty() || p.len() > d.max(1) { sym::fail(1006) }
                if let Some(x) = limit { if matches > x { sym::fail(1007) } }
            }
            Some(QueryResponse::Complete(_)) => { completes += 1; if completes > 1 { sym::fail(1008) } if by_deadline { break } }
            Some(QueryResponse::Timeout) => sym::fail(1009),
            Some(QueryResponse::Logs(_)) => if completes > 0 { sym::fail(1010) },
        }
    }
    sym::observe(matches as u64);
    sym::cover(if matches > 0 { 1 } else { 2 });
    if limit == Some(matches) { sym::cover(3) }
    // nothing more, however often it is asked
    for _ in 0..2 {
        if q.next().is_some() { sym::fail(1011) }
        if !matches!(q.next_within_deadline(None), QueryResponse::Complete(_)) { sym::fail(1012) }
    }
    // a limit that was not reached cuts nothing off
    if limit.map_or(true, |x| matches < x) {
        let mut q = QueryEvaluator::new(again, &l.words, d, None);
        let all = collect(&mut q, 100000, 1013).hits.len();
        let default = how == 1 && limit.is_none() && all > 300;
        if all != matches && !default { sym::fail(1014) }
    }
}

// ---- C17
/// Reads "(12%)" out of a progress report.
fn percent(s: &str) -> Option<u64> {
    let b = s.as_bytes();
    for i in 0..b.len() {
        if b[i] == b'%' {
            let mut j = i; let mut x = 0u64; let mut f = 1u64;
            while j > 0 && b[j - 1].is_ascii_digit() { j -= 1; x = x.saturating_add(((b[j] - b'0') as u64).saturating_mul(f)); f = f.saturating_mul(10) }
            if j == i { return None }
            return Some(x);
        }
    }
    None
}
fn ask(q: &QueryEvaluator) {
    let s = q.progress();
    let p = percent(&s);
    sym::note(|| s.clone());
    sym::observe(p.unwrap_or(1000));
    if let Some(p) = p {
        sym::cover(1);
        if p > 0 && p < 100 { sym::cover(3) }
        if p > 100 { sym::fail(1701) }
    } else { sym::cover(2) }
    let _ = q.expressions().len();
}
/// d: jumps of the clock
pub fn progress(fam: u64, shape: u64, depth: u64, jm: u64) {
    let e = match fam {
        98 => vec![],
        99 => wide(),
        // "(ab|cd|...)a{depth - 2}": a chain of words as long as the limit allows
        97 => vec![(O::Seq(vec![O::Alt((0..7).map(|i| O::Seq(vec![O::C(1 << (2 * i)), O::C(2 << (2 * i))])).collect()), rep(O::C(A), depth as usize - 2, Some(depth as usize - 2))]), Opt::new())],
        f => family(f),
    };
    let l = if fam == 97 { alphabet(shape) } else if shape >= 1_000_000_000 { many(shape - 1_000_000_000) } else { list(shape, 12, &|| letter()) };
    let mut q = QueryEvaluator::new(exprs(&e), &l.words, depth as usize, None);
    let again = exprs(&e);
    let plain = collect(&mut q, 100000, 1702);
    clock_init(jm);
    let mut q = QueryEvaluator::new(again, &l.words, depth as usize, None);
    ask(&q);
    let mut hits: Vec<Vec<u32>> = vec![];
    let mut n = 0;
    loop {
        n += 1;
        if n > 100000 { sym::fail(1703) }
        let deadline = Some(Instant::now() + Duration::from_secs(10));
        clock(true);
        let r = q.next_within_deadline(deadline);
        clock(false);
        ask(&q);
        match r {
            QueryResponse::Match(p) => hits.push(p.iter().map(|w| w.score).collect()),
            QueryResponse::Complete(_) => break,
            _ => {}
        }
    }
    ask(&q);
    sym::observe(hits.len() as u64);
    if hits != plain.hits { sym::fail(1704) }
}

// ---- C18
/// Words of odd shapes: no characters at all, no boundary at the end, only boundaries...
pub fn odd_list(n: u64, tr: u64) -> L {
    let mut l = L { chars: vec![], words: vec![] };
    let mut t = 0u8;
    for i in 0..n {
        let c: Vec<u8> = match sym::choose(6) {
            0 => vec![],
            1 => vec![END],
            2 => vec![ch()],
            3 => vec![ch(), END],
            4 => vec![END, ch(), END],
            _ => vec![ch(), ch()],
        };
        // tiers in order, with gaps, up to the largest one
        if tr == 1 { t = [0, 3, 255, 255][i as usize] } else if tr == 2 && i > 0 { t = if sym::choose(2) == 1 { 255 } else { t } }
        l.words.push(word(&c, t, i as u32));
        l.chars.push(c);
    }
    l
}
/// a: family (200+: arbitrary tree with every class), b: words, c: depth, d: tiers + 10*(limit+1)
pub fn totality(fam: u64, n: u64, depth: u64, td: u64) {
    let mut e = match fam {
        200..=203 => {
            let g = G { classes: CLX, reps: REPS5, subs: true, empty: true };
            let o = g.of_kind((fam - 200) as u8, 1, true);
            let opt = o.auto(Opt { words: sym::choose(2) == 1, punct: false, fuzz: sym::choose(2) as usize });
            vec![(o, opt)]
        }
        204 => vec![(O::Seq(vec![]), Opt { fuzz: sym::choose(3) as usize, words: sym::choose(2) == 1, punct: sym::choose(2) == 1 })],
        205 => vec![(O::C(0), Opt { fuzz: sym::choose(3) as usize, ..Opt::new() }), (rep(O::C(ALL), 0, None), Opt::new())],
        206 => vec![],
        _ => family(fam),
    };
    if td / 1000 % 10 == 1 { let x = e.pop().unwrap(); e.push((rep(O::C(LETTERS), 0, None), Opt::new())); e.push(x); }
    let x = exprs(&e);
    let l = odd_list(n, td % 10);
    let limit = match td / 10 % 100 { 0 => None, x => Some(x as usize - 1) };
    let mut q = QueryEvaluator::new(x, &l.words, depth as usize, limit);
    let _ = q.expressions().len();
    let out = collect(&mut q, 200000, 1802);
    observe_out(&out);
    sym::cover(if out.hits.is_empty() { 2 } else { 1 });
    if out.completes != 1 { sym::fail(1803) }
    for h in &out.hits { for x in h { if *x as u64 >= n { sym::fail(1804) } } }
    let _ = (q.progress(), q.expressions().len());
}
