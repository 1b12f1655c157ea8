//! Queries over whole wordlists: conjunction, phrases, order, limits, history.
use crate::oracle::*;
use crate::sym;
use crate::util::*;
use noodle::{QueryEvaluator, Word};

pub type E = (O, Opt);
/// Words with `shape`'s decimal digits as lengths and `tr`'s as tiers (both
/// read from the last digit backwards); all letters are arbitrary.
pub struct L { pub chars: Vec<Vec<u8>>, pub words: Vec<Word> }
pub fn digits(mut x: u64) -> Vec<u8> { let mut v = vec![]; while x > 0 { v.push((x % 10) as u8); x /= 10 } v.reverse(); v }
pub fn list(shape: u64, tr: u64, chr: &dyn Fn() -> u8) -> L {
    let d = digits(shape);
    let mut l = L { chars: vec![], words: vec![] };
    for (i, n) in d.iter().enumerate() {
        let len = if *n == 9 { sym::choose(3) } else if *n == 8 { 1 + sym::choose(2) } else { *n };
        let mut c: Vec<u8> = (0..len).map(|_| chr()).collect();
        c.push(END);
        let mut t = tr; for _ in 0..d.len() - 1 - i { t /= 10 }
        l.words.push(word(&c, (t % 10) as u8, i as u32));
        l.chars.push(c);
    }
    l
}
pub fn exprs(e: &[E]) -> Vec<noodle::Expression> { e.iter().map(|(o, opt)| expr(o, *opt)).collect() }
/// (must, may) over all expressions.
pub fn all_accept(e: &[E], c: &[u8]) -> (u8, u8) {
    let mut r = (1, 1);
    for (o, opt) in e { let (a, b) = accepts(o, *opt, c); r.0 &= a; r.1 &= b }
    r
}
pub fn concat(l: &L, ids: &[u32]) -> Vec<u8> { let mut v = vec![]; for i in ids { v.extend_from_slice(&l.chars[*i as usize]) } v }
/// All id tuples of length `k` over `n` words.
pub fn tuples(n: u32, k: usize) -> Vec<Vec<u32>> {
    let mut r: Vec<Vec<u32>> = vec![vec![]];
    for _ in 0..k { let mut s = vec![]; for t in &r { for i in 0..n { let mut u = t.clone(); u.push(i); s.push(u) } } r = s }
    r
}
/// Expression families for whole-list scenarios.
pub fn family(f: u64) -> Vec<E> {
    let g = G { classes: CL3, reps: REPS5, subs: true, empty: false };
    let o = Opt::new();
    let leafy = |n: usize| O::Seq((0..n).map(|_| g.class()).collect());
    match f {
        0..=3 => vec![(g.of_kind(f as u8, 2, true), o)],
        4 => vec![(leafy(2 + sym::choose(3) as usize), o)],
        5 => vec![(g.any(1, true), o), (g.any(1, true), o)],
        6 => vec![(leafy(2), o), (g.of_kind(3, 1, true), o)],
        7 => vec![(leafy(3), o), (rep(O::Seq(vec![g.class(), g.class()]), 0, None), o)],
        // explicit word boundaries
        8 => vec![(O::Seq(vec![g.any(1, true), O::C(WEND), g.class()]), Opt { words: true, ..o })],
        9 => vec![(O::Seq(vec![rep(O::Seq(vec![g.any(1, true), O::C(WEND)]), 0, None), g.class()]), Opt { words: true, ..o })],
        // fuzzy
        10 => vec![(leafy(1 + sym::choose(3) as usize), Opt { fuzz: 1, ..o })],
        11 => vec![(leafy(2 + sym::choose(2) as usize), Opt { fuzz: 2, ..o })],
        12 => vec![(leafy(2), Opt { fuzz: 1, ..o }), (leafy(3), o)],
        13 => vec![(g.of_kind(3, 1, true), Opt { fuzz: 1, ..o })],
        // three expressions
        14 => vec![(g.class(), o), (rep(g.class(), 1, None), o), (O::Alt(vec![g.class(), leafy(2)]), o)],
        // repeated groups, substrings of longer sequences
        15 => vec![(rep(O::Seq(vec![g.class(), g.class()]), 0, None), o)],
        16 => vec![(O::Sub(vec![g.class(), g.class(), g.class(), g.class()]), o)],
        17 => vec![(O::Seq(vec![rep(g.class(), 0, None), g.class(), rep(g.class(), 0, None)]), o)],
        18 => vec![(O::Alt(vec![leafy(2), leafy(3)]), o)],
        19 => vec![(rep(O::Alt(vec![g.class(), leafy(2)]), 1, None), o)],
        // wide results, for ordering
        20 => vec![(rep(O::C(LETTERS), 0, None), o)],
        21 => vec![(rep(O::C(A | B), 1, None), o)],
        22 => vec![(rep(O::C(LETTERS), 2, Some(4)), o)],
        23 => vec![(rep(O::C(LETTERS), 1, Some(3)), o), (O::Seq(vec![rep(O::C(LETTERS), 0, None), O::C(A)]), o)],
        24 => vec![(O::Seq(vec![O::C(A), rep(O::C(LETTERS), 0, None)]), o)],
        25 => vec![(rep(O::C(A), 0, None), o)],
        26 => vec![(rep(O::Seq(vec![O::C(A), O::C(LETTERS)]), 1, None), o)],
        27 => vec![(O::Seq(vec![rep(O::C(LETTERS), 0, None), O::C(A), rep(O::C(LETTERS), 0, None)]), o)],
        28 => vec![(O::Alt(vec![O::C(A), O::Seq(vec![O::C(B), rep(O::C(LETTERS), 2, Some(3))])]), o)],
        29 => vec![(O::Alt(vec![rep(O::C(A), 2, Some(2)), rep(O::C(B), 3, Some(3))]), o)],
        // few results in long lists
        30 => vec![(O::Seq(vec![rep(O::C(LETTERS), 0, None), O::C(1 << 25)]), o)],
        31 => vec![(O::Seq(vec![O::C(A), rep(O::C(LETTERS), 0, None), O::C(1 << 25)]), o)],
        // two letters and "zz"
        32 => vec![(O::Seq(vec![O::C(LETTERS), O::C(LETTERS), O::C(1 << 25), O::C(1 << 25)]), o)],
        // many edits over several words
        33..=36 => {
            let (n, k) = [(6, 4), (5, 3), (7, 5), (6, 5)][f as usize - 33];
            let which = sym::choose(4) as usize;
            let letters = [[A, A, A, A, A, A, A], [A, A, A, B, B, B, A], [A, B, A, B, A, B, A], [A, B, LETTERS, A, B, LETTERS, A]][which];
            vec![(O::Seq(letters[..n].iter().map(|c| O::C(*c)).collect()), Opt { fuzz: k, ..o })]
        }
        // many states, most of which no word needs
        37 => vec![(O::Alt((0..25u32).map(|i| O::Seq([i, i * 7 + 3, i * 5 + 1].iter().map(|k| O::C(1 << (k % 26))).collect())).collect()), o)],
        38 => vec![(O::Alt(vec![O::Seq((0..66u32).map(|i| rep(O::C(1 << (i * 7 % 26)), 0, Some(1))).collect()), O::Seq(vec![O::C(A), O::C(B), O::C(LETTERS)])]), o)],
        39 => vec![(O::Seq(vec![rep(O::Alt((0..40u32).map(|i| O::Seq([i * 3, i * 7 + 3].iter().map(|k| O::C(1 << (k % 26))).collect())).collect()), 1, Some(2)), O::C(LETTERS)]), o)],
        // many expressions: one of them matters, at any of three places; or each forbids a letter at a place
        40 => {
            let at = [0, 8, 12][sym::choose(3) as usize];
            (0..13).map(|i| (if i == at { O::Seq(vec![rep(O::C(LETTERS), 0, Some(1)), O::C(A), rep(O::C(B), 0, None)]) } else { rep(O::C(LETTERS), 0, None) }, o)).collect()
        }
        41..=43 => {
            let (n, places) = [(17u32, 1u32), (34, 2), (66, 3)][f as usize - 41];
            (0..n).map(|i| {
                let mut v = vec![O::C(LETTERS); (i % places) as usize];
                v.push(O::C(LETTERS & !(1 << (i * 5 % 26))));
                v.push(rep(O::C(LETTERS), 0, None));
                (O::Seq(v), o)
            }).collect()
        }
        44 => {
            let mut v = vec![];
            for i in 0..10 { v.push((match i % 5 { 0 => O::Sub(vec![O::C(LETTERS), O::C(A | B), O::C(LETTERS)]), 1 => rep(O::Alt(vec![O::C(LETTERS), O::Seq(vec![O::C(A), O::C(B)])]), 1, None), 2 => O::Seq(vec![rep(O::C(LETTERS), 1, None), O::C(LETTERS & !(1 << i))]), 3 => rep(O::C(LETTERS), 1, Some(i)), _ => O::Seq(vec![O::C(LETTERS & !(2 << i)), rep(O::C(LETTERS), 0, None)]) }, o)) }
            v
        }
        _ => sym::fail(9998),
    }
}
/// Reads one of the "wide" families (20..=29) by choice.
pub fn wide() -> Vec<E> { family(20 + sym::choose(10) as u64) }

/// C05: which words come back, in which order.
pub fn conj(fam: u64, shape: u64, depth: u64, n: u64) {
    let e = if fam < 100 { family(fam) } else {
        // n arbitrary depth-1 expressions
        let g = G { classes: if fam == 101 { CL4 } else { CL3 }, reps: REPS5, subs: false, empty: fam == 102 };
        (0..n).map(|_| (g.any(1, true), Opt::new())).collect()
    };
    let x = exprs(&e);
    let l = list(shape, 0, &|| letter());
    let mut q = QueryEvaluator::new(x, &l.words, depth as usize, None);
    let out = collect(&mut q, 10000, 302);
    let mut prev: i64 = -1;
    let mut seen = vec![0u32; l.words.len()];
    let mut singles = true;
    for h in &out.hits {
        if h.len() != 1 { singles = false; continue }
        if !singles { sym::fail(305) }
        let i = h[0] as i64;
        if i <= prev { sym::fail(303) }
        prev = i;
        seen[i as usize] += 1;
    }
    sym::cover(if seen.iter().any(|x| *x > 0) { 1 } else { 2 });
    observe_out(&out);
    for (i, c) in l.chars.iter().enumerate() {
        let (lo, hi) = all_accept(&e, c);
        sym::check(if seen[i] > 0 { hi != 0 } else { lo == 0 }, 301);
    }
}

/// C06: exactly the matching phrases, each once.
pub fn phrases(fam: u64, shape: u64, tr: u64, depth: u64) {
    let e = family(fam);
    let x = exprs(&e);
    let l = list(shape, tr, &|| if (37..40).contains(&fam) { pick(&[0, 1, 3, 10, 21, 25]) } else { letter() });
    let d = depth as usize;
    let mut q = QueryEvaluator::new(x, &l.words, d, None);
    let out = collect(&mut q, 100000, 402);
    check_phrases(&e, &l, d, &out);
}
pub fn check_phrases(e: &[E], l: &L, d: usize, out: &Out) {
    let n = l.words.len() as u32;
    let mut conds = vec![];
    let mut counted = 0;
    let mut multi = 0;
    for k in 1..=d.max(1) {
        for t in tuples(n, k) {
            let times = out.hits.iter().filter(|h| **h == t).count();
            counted += times;
            if k > 1 { multi += times }
            if times > 1 { sym::fail(403) }
            let (lo, hi) = all_accept(e, &concat(l, &t));
            conds.push(if times == 1 { hi != 0 } else { lo == 0 });
        }
    }
    if counted != out.hits.len() { sym::fail(404) }
    sym::cover(if multi > 0 { 1 } else { 2 });
    observe_out(out);
    for c in conds { sym::check(c, 401) }
}

fn rarest(l: &L, h: &[u32]) -> u8 { h.iter().map(|i| l.words[*i as usize].tranche).max().unwrap() }
/// C07: order of the results, and a limited run is a prefix.
pub fn order(fam: u64, shape: u64, tr: u64, depth: u64) {
    let e = if fam == 99 { wide() } else { family(fam) };
    let d = depth as usize;
    // (expressions are built before the search branches)
    let mut pool: Vec<_> = (0..10).map(|_| exprs(&e)).collect();
    let l = list(shape, tr, &|| letter());
    let mut q = QueryEvaluator::new(pool.pop().unwrap(), &l.words, d, None);
    let out = collect(&mut q, 100000, 502);
    check_order(&l, &out.hits);
    let n = out.hits.len();
    sym::cover(if n > 2 { 1 } else { 2 });
    observe_out(&out);
    // every limit up to the total; the first few and the last few
    for lim in 0..=n + 1 {
        if lim > 4 && lim + 2 < n { continue }
        let mut q = QueryEvaluator::new(pool.pop().unwrap(), &l.words, d, Some(lim));
        let o2 = collect(&mut q, 100000, 503);
        if o2.hits.len() != lim.min(n) { sym::fail(504) }
        for i in 0..o2.hits.len() { if o2.hits[i] != out.hits[i] { sym::fail(505) } }
        if o2.completes != 1 { sym::fail(506) }
    }
}
/// C06: long phrases of one word of `len` arbitrary letters; the limit on words is set by the text
/// (`limit` 0: not set, so the documented 10) or by the caller (`by` 1).
pub fn deep(form: u64, limit: u64, len: u64, by: u64) {
    let l1 = || O::C(LETTERS);
    let (s, o) = match form {
        0 => (".*".to_string(), rep(l1(), 0, None)),
        1 => ("a*".to_string(), rep(O::C(A), 0, None)),
        2 => ("(..)+".to_string(), rep(O::Seq(vec![l1(), l1()]), 1, None)),
        3 => { let n = (limit.max(10) * len) as usize; (format!(".{{{}}}", n), rep(l1(), n, Some(n))) }
        4 => { let n = limit.max(10) as usize + 2; (format!("a.{{3,{}}}", n), O::Seq(vec![O::C(A), rep(l1(), 3, Some(n))])) }
        _ => ("(.a?.)*b?".to_string(), O::Seq(vec![rep(O::Seq(vec![l1(), rep(O::C(A), 0, Some(1)), l1()]), 0, None), rep(O::C(B), 0, Some(1))])),
    };
    let t = if by == 0 && limit > 0 { format!("#words {}\n{}", limit, s) } else { s };
    sym::note(|| t.clone());
    let ast = match noodle::parser::QueryAst::new_from_str(&t) { Ok(a) => a, Err(_) => sym::fail(403) };
    let e: Vec<E> = vec![(o, Opt::new())];
    let mut c: Vec<u8> = (0..len).map(|_| letter()).collect();
    c.push(END);
    let l = L { words: vec![word(&c, 0, 0)], chars: vec![c] };
    let mut q = QueryEvaluator::from_ast(&ast, &l.words);
    if by == 1 { q.set_search_depth_limit(limit as usize) }
    let out = collect(&mut q, 100000, 402);
    check_phrases(&e, &l, if limit > 0 { limit as usize } else { 10 }, &out);
}
/// C07: many words and long phrases, of which the first few are asked for: the expression is `total` letters (without
/// `total`: any letters, and ten times as many results); the list has one word of half of them, then ones of two letters, then (a third) of one, in `tiers` tiers.
pub fn far(total: u64, n: u64, tiers: u64, depth_limit: u64) {
    let (depth, limit) = ((depth_limit / 10) as usize, (depth_limit % 10) as usize * if total == 0 { 10 } else { 1 });
    let all = rep(O::C(LETTERS), 0, None);
    let e = vec![(if total > 0 { O::Seq(vec![O::C(LETTERS); total as usize]) } else { all }, Opt::new())];
    let x = exprs(&e);
    let mut l = L { chars: vec![], words: vec![] };
    for i in 0..n {
        let len = if total > 0 && i == 0 { total / 2 } else if i < n * 2 / 3 { 2 } else { 1 };
        let mut c: Vec<u8> = (0..len).map(|k| if k == 0 && (i < 2 || i + 1 == n) { letter() } else { ((i * 7 + k) % 26) as u8 }).collect();
        c.push(END);
        l.words.push(word(&c, (i * tiers / n) as u8, i as u32));
        l.chars.push(c);
    }
    // how many phrases of k words up to tier t there are (no more than a million)
    let upto = |t: u8, k: usize| -> u64 {
        if total == 0 { return (0..k).fold(1, |a, _| (a * l.words.iter().filter(|w| w.tranche <= t).count() as u64).min(1000000)) }
        let mut ways = vec![0u64; total as usize + 1];
        ways[0] = 1;
        for _ in 0..k {
            let mut next = vec![0u64; total as usize + 1];
            for len in [1, 2, total as usize / 2] {
                let m = (0..n as usize).filter(|i| l.words[*i].tranche <= t && l.chars[*i].len() == len + 1).count() as u64;
                for s in len..=total as usize { next[s] = (next[s] + m * ways[s - len]).min(1000000) }
                if total as usize / 2 <= 2 { break }
            }
            ways = next;
        }
        ways[total as usize]
    };
    let mut q = QueryEvaluator::new(x, &l.words, depth, Some(limit));
    let out = collect(&mut q, 100000, 502);
    if out.hits.len() > limit { sym::fail(504) }
    check_order(&l, &out.hits);
    for (j, h) in out.hits.iter().enumerate() {
        let th = rarest(&l, h);
        // all that is better came before
        for k in 2..=h.len() {
            for t in 0..=th {
                if k == h.len() && t == th { continue }
                let all = upto(t, k);
                let all = if t > 0 && all < 1000000 { all - upto(t - 1, k) } else { all };
                let before = out.hits[..j].iter().filter(|p| p.len() == k && rarest(&l, p) == t).count() as u64;
                if before != all { sym::fail(514) }
            }
        }
    }
    sym::cover(if out.hits.len() > 2 { 1 } else { 2 });
    observe_out(&out);
}
pub fn check_order(l: &L, hits: &[Vec<u32>]) {
    for j in 0..hits.len() {
        for i in 0..j {
            // hits[i] came before hits[j]; hits[j] must not be strictly better
            let (p, q) = (&hits[i], &hits[j]);
            if q.len() == 1 && p.len() > 1 { sym::fail(510) }
            if p.len() == 1 && q.len() == 1 { if p[0] >= q[0] { sym::fail(511) } continue }
            if p.len() == 1 { continue }
            let (tp, tq) = (rarest(l, p), rarest(l, q));
            if q.len() <= p.len() && tq <= tp && (q.len() < p.len() || tq < tp) { sym::fail(512) }
            if q.len() == p.len() && tp == tq && *q <= *p { sym::fail(513) }
        }
    }
}

/// C08: the verdict on each word alone equals the verdict within the list.
pub fn history(fam: u64, shape: u64, depth: u64, chars: u64) {
    let e = if fam == 99 { wide() } else { family(fam) };
    let n = digits(shape).len();
    let mut pool: Vec<_> = (0..n + 1).map(|_| exprs(&e)).collect();
    let l = list(shape, 0, &|| if chars == 1 { ch() } else { letter() });
    let mut q = QueryEvaluator::new(pool.pop().unwrap(), &l.words, depth as usize, None);
    let out = collect(&mut q, 100000, 602);
    let mut got = vec![0; n];
    for h in &out.hits { if h.len() == 1 { got[h[0] as usize] += 1 } }
    observe_out(&out);
    for i in 0..n {
        let mut q = QueryEvaluator::new(pool.pop().unwrap(), &l.words[i..i + 1], depth as usize, None);
        let alone = collect(&mut q, 100000, 603).hits.iter().filter(|h| h.len() == 1).count();
        if alone != got[i] { sym::fail(601) }
        sym::cover(if alone > 0 { 1 } else { 2 });
    }
}
/// Many concrete words over a and b, in an order given by `mix`, with one arbitrary word of `len` letters at place `at`.
pub fn crowd(n: u64, mix: u64, at: u64, len: u64) -> L {
    let mut all: Vec<Vec<u8>> = vec![];
    for k in 1..=6usize { for m in 0..1u32 << k { all.push((0..k).map(|i| (m >> i & 1) as u8).collect()) } }
    let mut l = L { chars: vec![], words: vec![] };
    let mut x = mix;
    for i in 0..n {
        let mut c: Vec<u8> = if i == at { (0..len).map(|_| letter()).collect() } else {
            // a simple random walk; every third word shares its beginning with the one before
            x = (x * 1103515245 + 12345) % (1 << 31);
            let w = all[(x >> 8) as usize % all.len()].clone();
            match l.chars.last() { Some(p) if x >> 5 & 3 == 0 && i != at + 1 => { let mut v = p[..(p.len() - 1).min(3)].to_vec(); v.extend_from_slice(&w[..w.len().min(3)]); v } _ => w }
        };
        c.push(END);
        l.words.push(word(&c, 0, i as u32));
        l.chars.push(c);
    }
    l
}
/// C02, C08: the verdicts on all words of a longer list. k: edits. Fuzzy families of C02.
pub fn crowded(fam: u64, k: u64, n_at: u64, mix_len: u64) {
    let e: Vec<E> = if fam >= 100 { family(fam - 100).into_iter().map(|(o, p)| (o, Opt { fuzz: p.fuzz.max(k as usize), ..p })).collect() } else { vec![(crate::single::fuzzy_tree(fam), Opt { fuzz: k as usize, ..Opt::new() })] };
    let x = exprs(&e);
    let l = crowd(n_at / 100, mix_len / 10, n_at % 100, mix_len % 10);
    let out = collect(&mut QueryEvaluator::new(x, &l.words, 1, None), 10000, 202);
    let mut seen = vec![0u32; l.words.len()];
    for h in &out.hits { if h.len() == 1 { seen[h[0] as usize] += 1 } }
    sym::cover(if seen.iter().any(|x| *x > 0) { 1 } else { 2 });
    observe_out(&out);
    for (i, c) in l.chars.iter().enumerate() {
        let (lo, hi) = all_accept(&e, c);
        if seen[i] > 1 { sym::fail(203) }
        sym::check(if seen[i] > 0 { hi != 0 } else { lo == 0 }, if seen[i] > 0 { 201 } else { 200 });
    }
}
/// C08: the same lists, each word alone and within the list.
pub fn crowd_history(fam: u64, k: u64, n_at: u64, mix_len: u64) {
    let e: Vec<E> = if fam >= 100 { family(fam - 100).into_iter().map(|(o, p)| (o, Opt { fuzz: p.fuzz.max(k as usize), ..p })).collect() } else { vec![(crate::single::fuzzy_tree(fam), Opt { fuzz: k as usize, ..Opt::new() })] };
    let n = n_at / 100;
    let mut pool: Vec<_> = (0..n + 1).map(|_| exprs(&e)).collect();
    let l = crowd(n, mix_len / 10, n_at % 100, mix_len % 10);
    let out = collect(&mut QueryEvaluator::new(pool.pop().unwrap(), &l.words, 1, None), 10000, 602);
    let mut seen = vec![0usize; l.words.len()];
    for h in &out.hits { if h.len() == 1 { seen[h[0] as usize] += 1 } }
    observe_out(&out);
    for i in 0..n as usize {
        let alone = collect(&mut QueryEvaluator::new(pool.pop().unwrap(), &l.words[i..i + 1], 1, None), 10000, 603).hits.len();
        sym::cover(if alone > 0 { 1 } else { 2 });
        if alone != seen[i] { sym::fail(601) }
    }
}
/// C02: lists of words, each of which must get its own verdict.
pub fn fuzzy_list(fam: u64, k: u64, shape: u64, _d: u64) {
    let e = vec![(crate::single::fuzzy_tree(fam), Opt { fuzz: k as usize, ..Opt::new() })];
    let x = exprs(&e);
    let l = list(shape, 0, &|| letter());
    let out = collect(&mut QueryEvaluator::new(x, &l.words, 1, None), 10000, 202);
    let mut seen = vec![0u32; l.words.len()];
    for h in &out.hits { if h.len() == 1 { seen[h[0] as usize] += 1 } }
    sym::cover(if seen.iter().any(|x| *x > 0) { 1 } else { 2 });
    observe_out(&out);
    for (i, c) in l.chars.iter().enumerate() {
        let (lo, hi) = all_accept(&e, c);
        if seen[i] > 1 { sym::fail(203) }
        sym::check(if seen[i] > 0 { hi != 0 } else { lo == 0 }, if seen[i] > 0 { 201 } else { 200 });
    }
}
/// C08: phrases over the first words are the same when more words are added
/// (at the end, at the front, or in between).
pub fn grown(fam: u64, shape: u64, tr: u64, depth: u64) {
    let e = if fam == 99 { wide() } else { family(fam) };
    let n = digits(shape).len();
    let mut pool: Vec<_> = (0..n + 1).map(|_| exprs(&e)).collect();
    let l = list(shape, tr, &|| letter());
    let out = collect(&mut QueryEvaluator::new(pool.pop().unwrap(), &l.words, depth as usize, None), 100000, 602);
    observe_out(&out);
    sym::cover(if out.hits.iter().any(|h| h.len() > 1) { 1 } else { 2 });
    // leave one word out
    for x in 0..n {
        let rest: Vec<Word> = (0..n).filter(|i| *i != x).map(|i| l.words[i].clone()).collect();
        let o2 = collect(&mut QueryEvaluator::new(pool.pop().unwrap(), &rest, depth as usize, None), 100000, 602);
        let mut a: Vec<&Vec<u32>> = out.hits.iter().filter(|h| !h.contains(&(x as u32))).collect();
        let mut b: Vec<&Vec<u32>> = o2.hits.iter().collect();
        a.sort(); b.sort();
        if a != b { sym::fail(610) }
    }
}
