//! Single-word matching against the reference model (regular core, options).
use crate::oracle::*;
use crate::sym;
use crate::util::*;
use noodle::{QueryEvaluator, Word};

/// Runs `o` as a one-expression query on one word and compares with the model.
pub fn check_word(o: &O, opt: Opt, c: &[u8], depth: usize, id: u64) {
    let words: [Word; 1] = [word(c, 0, 7)];
    let mut q = QueryEvaluator::new(vec![expr(o, opt)], &words, depth, None);
    verdict(&mut q, o, opt, c, id);
}
pub fn verdict(q: &mut QueryEvaluator, o: &O, opt: Opt, c: &[u8], id: u64) {
    let out = collect(q, 10000, id + 2);
    let single = out.hits.iter().filter(|h| h.len() == 1).count();
    sym::observe(single as u64);
    sym::cover(if single > 0 { 1 } else { 2 });
    let (lo, hi) = accepts(o, opt, c);
    sym::note(|| format!("found {} times, expected {}", single, if lo == hi { lo.to_string() } else { "0 or 1".into() }));
    match single {
        0 => sym::check(lo == 0, id),
        1 => sym::check(hi != 0, id + 1),
        _ => sym::fail(id + 3),
    }
}
/// `len` arbitrary characters (choice of any length up to `max`), then the end of the word.
pub fn sym_chars(max: u8, letters: bool) -> Vec<u8> {
    let n = sym::choose(max + 1);
    let mut c: Vec<u8> = (0..n).map(|_| if letters { letter() } else { ch() }).collect();
    c.push(END);
    c
}
pub fn sym_chars_exact(n: u8, letters: bool) -> Vec<u8> {
    let mut c: Vec<u8> = (0..n).map(|_| if letters { letter() } else { ch() }).collect();
    c.push(END);
    c
}

/// C01: family `fam`, root kind `kind`, words up to `len`.
pub fn regex(fam: u64, kind: u64, len: u64, textual: u64) {
    let g = match fam % 10 {
        0 => G { classes: CL3, reps: REPS, subs: true, empty: true },
        1 => G { classes: CLX, reps: REPS5, subs: true, empty: false },
        2 => G { classes: CL4, reps: REPS5, subs: true, empty: true },
        _ => G { classes: &[A, B], reps: REPS5, subs: false, empty: false },
    };
    let d = (fam / 10 % 10) as usize;
    let thin = fam / 100 % 10 == 0;
    let wrap = fam / 1000 % 10;
    let mut o = if kind == 9 { g.class() } else { g.of_kind(kind as u8, d, thin) };
    match wrap {
        1 => o = O::Seq(vec![o, O::C(4)]),
        2 => o = O::Seq(vec![O::C(4), o, O::C(B)]),
        3 => o = rep(o, 0, None),
        4 => o = O::Seq(vec![rep(O::C(LETTERS), 0, None), o, rep(O::C(LETTERS), 0, None)]),
        _ => {}
    }
    let mut opt = Opt::new();
    if fam % 10 == 1 { opt = o.auto(opt); }
    let c = if fam / 10000 % 10 == 1 { sym_chars_exact(len as u8, false) } else { sym_chars(len as u8, false) };
    let depth = 1;
    if textual == 1 {
        let s = line(&o, opt);
        let ast = parse(&s, 9901);
        let words: [Word; 1] = [word(&c, 0, 7)];
        let mut q = QueryEvaluator::from_ast(&ast, &words);
        q.set_search_depth_limit(depth);
        verdict(&mut q, &o, opt, &c, 100);
    } else {
        check_word(&o, opt, &c, depth, 100);
    }
}

/// C01: automata of many states (several machine words of state bits) and
/// long words: a long concrete part and a few arbitrary characters.
pub fn wide_automaton(form: u64, n: u64, free: u64, fuzz: u64) {
    let n = n as usize;
    let g = G { classes: CL3, reps: REPS5, subs: true, empty: false };
    let opt = Opt { fuzz: fuzz as usize, ..Opt::new() };
    let letters = |m: usize| -> Vec<O> { (0..m).map(|i| O::C(1 << (i * 7 % 26))).collect() };
    let chars = |m: usize| -> Vec<u8> { (0..m).map(|i| (i * 7 % 26) as u8).collect() };
    // prefix characters that the word takes from the expression; then arbitrary ones
    let (o, pre): (O, Vec<u8>) = match form {
        // a long sequence, then anything small
        0 => { let mut v = letters(n); v.push(g.any(1, true)); (O::Seq(v), chars(n - sym::choose(2) as usize)) }
        // a repetition of up to n, then a letter
        1 => (O::Seq(vec![rep(O::C(A), 0, Some(n)), g.any(1, true)]), vec![0; n.min(36) - sym::choose(3) as usize]),
        // exactly n letters, then anything small
        2 => (O::Seq(vec![rep(O::C(LETTERS), n, Some(n)), g.any(1, true)]), chars(n - sym::choose(3) as usize)),
        // a substring of a long sequence of terms, somewhere in the middle
        3 => { let k = pick(&[0usize, 1, n / 2, n - 3]); (O::Sub(letters(n)), chars(n)[k..k + 1].to_vec()) }
        // many alternatives
        4 => { let v = (0..n / 3).map(|i| O::Seq(letters(n + 3)[i..i + 3].to_vec())).collect(); (O::Seq(vec![O::Alt(v), g.any(1, true)]), chars(n)[n / 6..n / 6 + 1].to_vec()) }
        // a loop around a long group
        5 => { let mut v = letters(n); v.push(rep(g.class(), 0, None)); (rep(O::Seq(v), 0, None), chars(n)) }
        // something small before a long tail, under alternatives
        6 => { let mut v = vec![g.any(1, true)]; v.extend(letters(n)); (O::Alt(vec![O::Seq(v), rep(O::C(B), 0, None)]), vec![]) }
        // many optional terms
        _ => (O::Seq((0..n).map(|i| rep(O::C(1 << (i % 26)), 0, Some(1))).collect()), vec![]),
    };
    let mut c = pre;
    if form == 6 {
        // the arbitrary part comes first
        for _ in 0..sym::choose(free as u8 + 1) { c.push(letter()) }
        c.extend(chars(n));
        if sym::choose(2) == 1 { let k = c.len() - 1; c[k] = letter() }
        c.push(END);
    } else {
        c.extend(sym_chars(free as u8, false));
    }
    check_word(&o, opt, &c, 1, 120);
}

/// C01, C06, C19 (`as_text`): repetitions with large counts, against counting. depth 2: the letters are divided among
/// two words.
pub fn counted(form: u64, n: u64, depth: u64, as_text: u64) {
    let n = n as usize;
    let x = O::C(A | B);
    let half = n / 2;
    let o = match form {
        0 => rep(x, n, Some(n)),
        1 => rep(x, 0, Some(n)),
        2 => rep(x, n, None),
        3 => rep(x, half, Some(n)),
        _ => rep(O::Seq(vec![x, O::C(4)]), half, Some(half)),
    };
    let fits = |c: &[u8]| -> bool {
        let k = c.len();
        let count = match form { 0 => k == n, 1 => k <= n, 2 => k >= n, 3 => k >= half && k <= n, _ => k == 2 * half };
        let mut good = count as u8;
        for (i, v) in c.iter().enumerate() { good &= if form == 4 && i % 2 == 1 { (*v == 2) as u8 } else { (*v < 2) as u8 } }
        good == 1
    };
    let base = match form { 3 => if sym::choose(2) == 1 { half } else { n }, 4 => 2 * half, _ => n };
    let len = base + sym::choose(3) as usize - 1;
    let at = [0, len / 2, len - 1][sym::choose(3) as usize];
    let mut c: Vec<u8> = (0..len).map(|i| if form == 4 && i % 2 == 1 { 2 } else { (i % 2) as u8 }).collect();
    c[at] = letter();
    let parts: Vec<Vec<u8>> = if depth == 1 { vec![c] } else { vec![c[..len / 3].to_vec(), c[len / 3..].to_vec()] };
    let words: Vec<_> = parts.iter().enumerate().map(|(i, p)| { let mut q = p.clone(); q.push(END); word(&q, 0, i as u32) }).collect();
    let e = if as_text == 0 { expr(&o, Opt::new()) } else {
        let mut s = String::new();
        text(&o, false, &mut s);
        sym::note(|| s.clone());
        match noodle::Expression::new(&s) { Ok(e) => e, Err(_) => sym::fail(19101) }
    };
    let out = collect(&mut QueryEvaluator::new(vec![e], &words, depth as usize, None), 1000, 102);
    sym::cover(if out.hits.is_empty() { 2 } else { 1 });
    observe_out(&out);
    let mut want = 0;
    for k in 1..=depth as usize {
        for t in crate::multi::tuples(words.len() as u32, k) {
            let mut all = vec![];
            for i in &t { all.extend_from_slice(&parts[*i as usize]) }
            let f = fits(&all);
            if f { want += 1 }
            sym::check(out.hits.contains(&t) == f, if f { 100 } else { 101 });
        }
    }
    if out.hits.len() != want { sym::fail(103) }
}

/// C02: fuzzy matching of single words. `k` edits; any: 1 = spaces and punctuation in the word too.
pub fn fuzzy(fam: u64, k: u64, len: u64, any: u64) {
    let o = fuzzy_tree(fam);
    let opt = Opt { fuzz: k as usize, ..Opt::new() };
    let c = sym_chars(len as u8, any == 0);
    check_word(&o, opt, &c, 1, 200);
}
pub fn fuzzy_tree(fam: u64) -> O {
    let g = G { classes: CL3, reps: REPS5, subs: true, empty: false };
    let leafy = |n: usize| O::Seq((0..n).map(|_| g.class()).collect());
    match fam {
        0 => leafy(1 + sym::choose(2) as usize),
        1 => leafy(3),
        2 => leafy(4),
        3 => g.of_kind(3, 1, true),
        4 => O::Alt(vec![g.class(), leafy(2)]),
        5 => O::Seq(vec![g.class(), g.any(1, true)]),
        6 => O::Seq(vec![g.any(1, true), g.class()]),
        7 => O::Sub(vec![g.class(), g.class(), O::C(4)]),
        8 => rep(leafy(2), pick(&[0, 1, 2]), pick(&[Some(2), None])),
        9 => O::Seq(vec![]),
        10 => O::Seq(vec![rep(O::C(LETTERS), 0, None), leafy(2), rep(O::C(LETTERS), 0, None)]),
        11 => O::Alt(vec![leafy(3), O::Seq(vec![g.class(), rep(g.class(), 0, None)])]),
        12 => O::Seq(vec![O::C(A), O::C(0), O::C(B)]),
        13 => g.any(1, false),
        14 => O::Seq(vec![O::Alt(vec![O::C(A), O::Seq(vec![])]), g.class(), rep(O::C(B), 0, Some(1))]),
        15 => { let c = || O::C(pick(&[A, B])); O::Seq(vec![c(), c(), c(), c()]) }
        _ => sym::fail(9994),
    }
}
