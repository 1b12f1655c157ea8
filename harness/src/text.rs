//! Query text: anagrams, options, syntax, parsing, printing, lines.
use crate::multi::*;
use crate::oracle::*;
use crate::single::*;
use crate::sym;
use crate::util::*;
use noodle::parser::{ExpressionAst, QueryAst};
use noodle::{QueryEvaluator, Word};

/// Text from ASCII bytes.
pub fn ascii(v: &[u8]) -> String { unsafe { String::from_utf8_unchecked(v.to_vec()) } }

/// Runs a parsed query on one word (single-word search): number of single results.
pub fn hits1(ast: &QueryAst, c: &[u8], depth: usize, id: u64) -> usize {
    let words: [Word; 1] = [word(c, 0, 7)];
    let mut q = QueryEvaluator::from_ast(ast, &words);
    q.set_search_depth_limit(depth);
    collect(&mut q, 10000, id).hits.iter().filter(|h| h.len() == 1).count()
}
pub fn judge(n: usize, lo: u8, hi: u8, id: u64) {
    sym::observe(n as u64);
    sym::cover(if n > 0 { 1 } else { 2 });
    sym::note(|| format!("found {} times, expected {}", n, if lo == hi { lo.to_string() } else { "0 or 1".into() }));
    match n {
        0 => sym::check(lo == 0, id),
        1 => sym::check(hi != 0, id + 1),
        _ => sym::fail(id + 3),
    }
}

// ---- C03 anagrams
const BANKS: &[&[u8]] = &[&[0], &[0, 1], &[0, 0], &[0, 1, 2], &[0, 0, 1], &[1, 0, 1, 0], &[0, 0, 0, 1], &[2, 1, 0, 1], &[0, 0, 0], &[0, 1, 2, 3, 0]];
fn suffix(k: u8, n: usize) -> String { match k { 0 => "".into(), 1 => "+".into(), 2 => "-".into(), 3 => format!("+{}", n), _ => format!("-{}", n) } }
/// Whole-line anagram: exact. a: kind, b: how many banks, c: word length, d: 1 = any characters, 0 = letters only
pub fn anagram_line(kind: u64, banks: u64, len: u64, any: u64) {
    let bank = BANKS[sym::choose(banks as u8) as usize];
    let k = kind as u8;
    let n = if k >= 3 { sym::choose(if k == 3 { 3 } else { bank.len() as u8 + 2 }) as usize } else { 0 };
    let mut s = String::from("<");
    for b in bank { s.push((b'a' + b) as char) }
    s.push_str(&suffix(k, n));
    s.push('>');
    let ast = parse(&s, 3001);
    let c = sym_chars(len as u8, any == 0);
    let got = hits1(&ast, &c, 1, 3002);
    // "all but N": with N larger than the bank nothing is left
    let n = if k == 4 { n.min(bank.len()) } else { n };
    let r = anagram(k, n, bank, Opt::new(), &c);
    judge(got, r, r, 3010);
}
/// Whole-line anagram of a large bank: `n` letters, of them `uniq` different, against words that are
/// the bank in another order with up to two letters more or fewer, and `syms` of the letters arbitrary.
pub fn anagram_big(kind: u64, n: u64, uniq: u64, syms: u64) {
    let (k, n) = (kind as u8, n as usize);
    let bank: Vec<u8> = (0..n).map(|i| (i as u64 % uniq * 7 % 26) as u8).collect();
    let delta = sym::choose(5) as usize;
    let len = n + delta - 2;
    let m = match k { 3 => 1 + sym::choose(2) as usize, 4 => sym::choose(3) as usize, _ => 0 };
    let mut s = String::from("<");
    for b in &bank { s.push((b'a' + b) as char) }
    s.push_str(&suffix(k, m));
    s.push('>');
    let ast = parse(&s, 3001);
    let mut c: Vec<u8> = (0..len).map(|i| bank[(n - 1 + n - i % n) % n]).collect();
    let first = sym::choose(2) as usize * (len - 1);
    c[first] = letter();
    for j in 1..syms as usize { c[(first + j * (len / 2)) % len] = letter() }
    c.push(END);
    let got = hits1(&ast, &c, 1, 3002);
    let r = anagram(k, m, &bank, Opt::new(), &c);
    judge(got, r, r, 3010);
}
/// The anagram as an explicit list of rearrangements of at most `max` letters.
pub fn rearrangements(k: u8, n: usize, bank: &[u8], max: usize) -> O {
    let mut out: Vec<Vec<u32>> = vec![];
    let total = bank.len();
    let (lo, hi) = match k { 0 => (total, total), 1 => (total, max.max(total)), 2 => (0, total), 3 => (total + n, total + n), _ => { let l = total.saturating_sub(n); (l, l) } };
    fn go(left: &mut Vec<u8>, wild: usize, cur: &mut Vec<u32>, len: usize, need_all: bool, out: &mut Vec<Vec<u32>>) {
        if cur.len() == len { if !(need_all && !left.is_empty()) && !out.contains(cur) { out.push(cur.clone()) } return }
        for i in 0..left.len() {
            if left[..i].contains(&left[i]) { continue }
            let x = left.remove(i);
            cur.push(1 << x);
            go(left, wild, cur, len, need_all, out);
            cur.pop();
            left.insert(i, x);
        }
        if wild > 0 { cur.push(LETTERS); go(left, wild - 1, cur, len, need_all, out); cur.pop(); }
    }
    for len in lo..=hi {
        let wild = if k == 1 || k == 3 { len - total } else { 0 };
        go(&mut bank.to_vec(), wild, &mut vec![], len, k == 0 || k == 1 || k == 3, &mut out);
    }
    O::Alt(out.into_iter().map(|v| O::Seq(v.into_iter().map(O::C).collect())).collect())
}
/// Anagrams inside larger expressions: nothing that fits is lost.
pub fn anagram_embedded(kind: u64, form: u64, len: u64, any: u64) {
    let k = kind as u8;
    let bank = BANKS[sym::choose(5) as usize];
    let n = if k >= 3 { sym::choose(2) as usize + 1 } else { 0 };
    let mut t = String::from("<");
    for b in bank { t.push((b'a' + b) as char) }
    t.push_str(&suffix(k, n));
    t.push('>');
    let n = if k == 4 { n.min(bank.len()) } else { n };
    let x = rearrangements(k, n, bank, len as usize);
    let (s, o) = match form {
        0 => (format!("{}c", t), O::Seq(vec![x, O::C(4)])),
        1 => (format!("c{}", t), O::Seq(vec![O::C(4), x])),
        2 => (format!("({}c)*", t), rep(O::Seq(vec![x, O::C(4)]), 0, None)),
        3 => (format!("{}*", t), rep(x, 0, None)),
        4 => (format!("({}|c)", t), O::Alt(vec![x, O::C(4)])),
        5 => (format!("{}<ab>", t), O::Seq(vec![x, rearrangements(0, 0, &[0, 1], 4)])),
        6 => (format!("(c{}?)d", t), O::Seq(vec![O::C(4), rep(x, 0, Some(1)), O::C(8)])),
        7 => (format!("<bcda>{}", t), O::Seq(vec![rearrangements(0, 0, &[0, 1, 2, 3], 4), x])),
        8 => (format!("({}c:^)", t), O::Sub(vec![x, O::C(4)])),
        9 => (format!("{}{{1,2}}c", t), O::Seq(vec![rep(x, 1, Some(2)), O::C(4)])),
        _ => (format!("({}:+)c?", t), O::Seq(vec![rep(O::C(ALL), 0, None), x, rep(O::C(ALL), 0, None), rep(O::C(4), 0, Some(1))])),
    };
    let ast = parse(&s, 3101);
    let c = sym_chars(len as u8, any == 0);
    let got = hits1(&ast, &c, 1, 3102);
    let mut opt = Opt::new();
    if form == 10 { opt = Opt { words: true, punct: true, ..opt } }
    let (lo, _) = accepts(&o, opt, &c);
    judge(got, lo, 1, 3110);
}

// ---- C04 options
/// Expressions with and without explicit symbols, options by text, one line or two.
pub fn options(form: u64, len: u64, lines: u64, depth: u64) {
    let g = G { classes: &[A, LETTERS, WEND, PUNCT, A | WEND, LETTERS | PUNCT], reps: REPS5, subs: false, empty: false };
    let gl = G { classes: &[A, LETTERS, A | B], reps: REPS5, subs: false, empty: false };
    let o = match form {
        0 => gl.any(1, true),
        1 => g.any(1, true),
        2 => O::Seq(vec![gl.class(), g.class(), gl.class()]),
        3 => O::Seq(vec![g.class(), g.class()]),
        4 => O::Alt(vec![O::Seq(vec![gl.class(), g.class()]), gl.class()]),
        5 => rep(O::Seq(vec![gl.class(), g.class()]), 1, None),
        6 => O::Seq(vec![rep(O::C(LETTERS), 0, None), g.class(), rep(O::C(LETTERS), 0, None)]),
        7 => O::Seq(vec![rep(O::C(ALL), 0, None), gl.class(), rep(O::C(ALL), 0, None)]),
        _ => sym::fail(9997),
    };
    let asked = Opt { words: sym::choose(2) == 1, punct: sym::choose(2) == 1, fuzz: 0 };
    let opt = o.auto(asked);
    let mut s = line(&o, asked);
    let mut extra: Option<E> = None;
    if lines == 2 {
        // a second line with (other) options of its own
        let o2 = rep(O::C(LETTERS), 0, None);
        let a2 = Opt { words: sym::choose(2) == 1, punct: false, fuzz: 0 };
        s = format!("{}\n{}", s, line(&o2, a2));
        extra = Some((o2, a2));
    }
    if lines == 3 {
        let o2 = O::Seq(vec![O::C(LETTERS), rep(O::C(LETTERS), 0, None)]);
        let a2 = Opt { words: false, punct: sym::choose(2) == 1, fuzz: 0 };
        s = format!("{};{}", line(&o2, a2), s);
        extra = Some((o2, a2));
    }
    let ast = parse(&s, 4001);
    let c = sym_chars(len as u8, false);
    let got = hits1(&ast, &c, depth as usize, 4002);
    let (mut lo, mut hi) = accepts(&o, opt, &c);
    if let Some((o2, a2)) = extra { let (l, h) = accepts(&o2, a2, &c); lo &= l; hi &= h }
    judge(got, lo, hi, 4010);
}
/// Enumerations over phrases: the word lengths must be the numbers in order.
pub fn enumeration(nums: u64, shape: u64, depth: u64, chars: u64) {
    let d = digits(nums);
    let d: Vec<usize> = d.iter().map(|x| if *x == 9 { 1 + sym::choose(3) as usize } else { *x as usize }).collect();
    let mut s = String::new();
    for (i, n) in d.iter().enumerate() { if i > 0 { s.push(' ') } s.push_str(&n.to_string()) }
    let ast = parse(&s, 4101);
    let l = list(shape, 0, &|| if chars == 1 { ch() } else { letter() });
    let mut q = QueryEvaluator::from_ast(&ast, &l.words);
    q.set_search_depth_limit(depth as usize);
    q.set_results_limit(None);
    let out = collect(&mut q, 100000, 4102);
    let mut v = vec![];
    for n in d { v.push(rep(O::C(LETTERS), n, Some(n))); v.push(O::C(WEND)) }
    check_phrases(&[(O::Seq(v), Opt { words: true, ..Opt::new() })], &l, depth as usize, &out);
}

// ---- C19 syntax
/// Prints `o` in one of several equivalent spellings.
pub fn spell(o: &O, term: bool, st: u8, s: &mut String) {
    if st & 2 != 0 && !s.is_empty() && !s.ends_with('{') { s.push(' ') }
    let name = |i: u32| -> char { let c = match i { 26 => '\'', 27 => '_', i => (b'a' + i as u8) as char }; if st & 1 != 0 { c.to_ascii_uppercase() } else { c } };
    match o {
        O::C(LETTERS) => s.push_str(if st & 4 != 0 { if st & 1 != 0 { "[A-Z]" } else { "[a-z]" } } else { "." }),
        O::C(0) => s.push_str("[^a-z]"),
        O::C(m) => {
            let many = m.count_ones() > 1;
            if many && *m < LETTERS && st & 4 != 0 {
                // inverted class of everything else
                s.push_str("[^");
                for i in 0..26 { if m >> i & 1 == 0 { s.push(name(i)) } }
                s.push(']');
            } else if many {
                s.push('[');
                let mut i = 0;
                while i < 28 {
                    let mut j = i;
                    while j < 25 && m >> i & 1 == 1 && m >> (j + 1) & 1 == 1 { j += 1 }
                    if j > i + 1 { s.push(name(i)); s.push('-'); s.push(name(j)); i = j + 1; continue }
                    if m >> i & 1 == 1 { s.push(name(i)) }
                    i += 1;
                }
                s.push(']');
            } else {
                if st & 8 != 0 { s.push('[') }
                for i in 0..28 { if m >> i & 1 == 1 { s.push(name(i)) } }
                if st & 8 != 0 { s.push(']') }
            }
        }
        O::Seq(v) => {
            let p = (term && v.len() != 1) || st & 8 != 0;
            if p { s.push('(') }
            for x in v { spell(x, term && v.len() == 1 && !p, st, s) }
            if p { s.push(')') }
        }
        O::Alt(v) => {
            s.push('(');
            for (i, x) in v.iter().enumerate() { if i > 0 { s.push('|') } spell(x, false, st & !8, s) }
            s.push(')');
        }
        O::Sub(v) => { s.push('('); for x in v { spell(x, true, st & !8, s) } s.push_str(":^)"); }
        O::Rep(t, min, max) => {
            if term { s.push('(') }
            spell(t, true, st & !8, s);
            if st & 2 != 0 { s.push(' ') }
            let long = st & 8 != 0;
            match (min, max) {
                (0, Some(1)) if !long => s.push('?'),
                (0, None) if !long => s.push('*'),
                (1, None) if !long => s.push('+'),
                (0, Some(n)) if st & 4 != 0 => s.push_str(&format!("{{,{}}}", n)),
                (n, None) => s.push_str(&format!("{{{},}}", n)),
                (a, Some(b)) if a == b && !long => s.push_str(&format!("{{{}}}", a)),
                (a, Some(b)) => s.push_str(&format!("{{{},{}}}", a, b)),
            }
            if term { s.push(')') }
        }
        O::Ana(..) => sym::fail(9996),
    }
}
const CLS: &[u32] = &[A, B, 1 << 25, LETTERS, 0b111, LETTERS & !A, A | 1 << 25, 0b11110, 0, LETTERS & !(0b1110)];
/// a: tree family, b: style bits, c: word length
pub fn syntax(fam: u64, style: u64, len: u64, any: u64) {
    let g = G { classes: CLS, reps: REPS, subs: true, empty: false };
    let g3 = G { classes: CL3, reps: REPS, subs: true, empty: false };
    let o = match fam {
        0 => g.class(),
        1 => O::Seq(vec![g.class(), g.class()]),
        2 => g3.of_kind(3, 1, true),
        3 => g3.of_kind(1, 1, true),
        4 => O::Seq(vec![O::C(B), g3.any(1, true)]),
        5 => O::Seq(vec![g3.any(1, true), O::C(B)]),
        6 => O::Alt(vec![O::Seq(vec![O::C(A), rep(O::C(B), 0, None)]), g3.any(1, true), O::C(4)]),
        7 => rep(O::Seq(vec![O::C(A), g3.any(1, true)]), 0, None),
        8 => O::Sub(vec![O::C(A), g3.any(1, true), O::C(B)]),
        9 => O::Seq(vec![O::C(A), rep(g3.class(), pick(&[0, 1, 2]), pick(&[Some(2), Some(3), None])), O::C(B)]),
        10 => rep(g.class(), 2, Some(2)),
        _ => sym::fail(9995),
    };
    let mut s = String::new();
    spell(&o, false, style as u8, &mut s);
    let ast = parse(&s, 19001);
    let c = sym_chars(len as u8, any == 0);
    let got = hits1(&ast, &c, 1, 19002);
    let (lo, hi) = accepts(&o, Opt::new(), &c);
    judge(got, lo, hi, 19010);
}
/// Fixed texts with their meaning spelled out: precedence, sugar.
pub fn precedence(from: u64, to: u64, len: u64, any: u64) {
    let c = |x: u8| O::C(1 << (x - b'a'));
    let dot = || O::C(LETTERS);
    let seq = |v: Vec<O>| O::Seq(v);
    let alt = |v: Vec<O>| O::Alt(v);
    let opt = |o: O| rep(o, 0, Some(1));
    let star = |o: O| rep(o, 0, None);
    let all = || rep(O::C(ALL), 0, None);
    let i = from + sym::choose((to - from) as u8) as u64;
    let mut op = Opt::new();
    let (s, o) = match i {
        0 => ("ab*", seq(vec![c(b'a'), star(c(b'b'))])),
        1 => ("a|bc", alt(vec![c(b'a'), seq(vec![c(b'b'), c(b'c')])])),
        2 => ("ab|c", alt(vec![seq(vec![c(b'a'), c(b'b')]), c(b'c')])),
        3 => ("ab|cd*", alt(vec![seq(vec![c(b'a'), c(b'b')]), seq(vec![c(b'c'), star(c(b'd'))])])),
        4 => ("(ab)*", star(seq(vec![c(b'a'), c(b'b')]))),
        5 => ("(a|b)c", seq(vec![alt(vec![c(b'a'), c(b'b')]), c(b'c')])),
        6 => ("a(b|c)?d", seq(vec![c(b'a'), opt(alt(vec![c(b'b'), c(b'c')])), c(b'd')])),
        7 => ("(abc:-)", seq(vec![opt(c(b'a')), opt(c(b'b')), opt(c(b'c'))])),
        8 => ("(a(bc)d:-)", seq(vec![opt(c(b'a')), opt(seq(vec![c(b'b'), c(b'c')])), opt(c(b'd'))])),
        9 => { op = Opt { words: true, punct: true, fuzz: 0 }; ("(ab:+)", seq(vec![all(), c(b'a'), all(), c(b'b'), all()])) }
        10 => ("(abc:^)", O::Sub(vec![c(b'a'), c(b'b'), c(b'c')])),
        11 => ("(a(bc)a:^)", O::Sub(vec![c(b'a'), seq(vec![c(b'b'), c(b'c')]), c(b'a')])),
        12 => ("[^abc]b", seq(vec![O::C(LETTERS & !7), c(b'b')])),
        13 => ("[a-cx-z]", O::C(7 | 7 << 23)),
        14 => ("[ab.]c", seq(vec![dot(), c(b'c')])),
        15 => ("[^aB-d]", O::C(LETTERS & !15)),
        16 => ("(a|b|)", alt(vec![c(b'a'), c(b'b')])),   // not accepted by the grammar: see below
        17 => ("A B  c", seq(vec![c(b'a'), c(b'b'), c(b'c')])),
        18 => ("a{2}b{1,}", seq(vec![rep(c(b'a'), 2, Some(2)), rep(c(b'b'), 1, None)])),
        19 => ("a{,2}b", seq(vec![rep(c(b'a'), 0, Some(2)), c(b'b')])),
        20 => ("(a{1,2}b){2}", rep(seq(vec![rep(c(b'a'), 1, Some(2)), c(b'b')]), 2, Some(2))),
        21 => ("(ab:+)c", { op = Opt { words: true, punct: true, fuzz: 0 }; seq(vec![all(), c(b'a'), all(), c(b'b'), all(), c(b'c')]) }),
        22 => ("x(ab:-)", seq(vec![c(b'x'), opt(c(b'a')), opt(c(b'b'))])),
        23 => ("(.a:^)b?", seq(vec![O::Sub(vec![dot(), c(b'a')]), opt(c(b'b'))])),
        24 => ("a_b", { op = Opt { words: true, punct: false, fuzz: 0 }; seq(vec![c(b'a'), O::C(WEND), c(b'b')]) }),
        25 => ("a'b", { op = Opt { words: false, punct: true, fuzz: 0 }; seq(vec![c(b'a'), O::C(PUNCT), c(b'b')]) }),
        26 => ("[a_]b", { op = Opt { words: true, punct: false, fuzz: 0 }; seq(vec![O::C(A | WEND), c(b'b')]) }),
        27 => ("[a-z'_]b", { op = Opt { words: true, punct: true, fuzz: 0 }; seq(vec![O::C(ALL), c(b'b')]) }),
        28 => ("ab !1", { op = Opt { words: false, punct: false, fuzz: 1 }; seq(vec![c(b'a'), c(b'b')]) }),
        29 => ("ab !_ !'", { op = Opt { words: true, punct: true, fuzz: 0 }; seq(vec![c(b'a'), c(b'b')]) }),
        30 => ("ab!'", { op = Opt { words: false, punct: true, fuzz: 0 }; seq(vec![c(b'a'), c(b'b')]) }),
        31 => ("((a)(b))+", rep(seq(vec![c(b'a'), c(b'b')]), 1, None)),
        32 => ("a?b?c?", seq(vec![opt(c(b'a')), opt(c(b'b')), opt(c(b'c'))])),
        33 => ("(a|bc|)", c(b'a')),
        34 => ("2", seq(vec![rep(dot(), 2, Some(2)), { op = Opt { words: true, punct: false, fuzz: 0 }; O::C(WEND) }])),
        35 => ("a|b|cd", alt(vec![c(b'a'), c(b'b'), seq(vec![c(b'c'), c(b'd')])])),
        36 => ("(a?b)*", star(seq(vec![opt(c(b'a')), c(b'b')]))),
        37 => ("(a*|b)c", seq(vec![alt(vec![star(c(b'a')), c(b'b')]), c(b'c')])),
        38 => ("(a|b)(c|d)", seq(vec![alt(vec![c(b'a'), c(b'b')]), alt(vec![c(b'c'), c(b'd')])])),
        39 => ("[a - c]b", seq(vec![O::C(7), c(b'b')])),
        40 => ("[^ a b ] [ A - C x ]", seq(vec![O::C(LETTERS & !3), O::C(7 | 1 << 23)])),
        41 => ("< a b >", O::Ana(0, 0, vec![0, 1])),
        42 => ("<a b+>", O::Ana(1, 0, vec![0, 1])),
        43 => ("<A a ->", O::Ana(2, 0, vec![0, 0])),
        44 => ("< b a + 1 >", O::Ana(3, 1, vec![0, 1])),
        45 => ("<ab c - 1 >", O::Ana(4, 1, vec![0, 1, 2])),
        46 => ("a { 2 } b { 1 , 2 }", seq(vec![rep(c(b'a'), 2, Some(2)), rep(c(b'b'), 1, Some(2))])),
        47 => ("( a | b ) * c", seq(vec![star(alt(vec![c(b'a'), c(b'b')])), c(b'c')])),
        48 => ("( a b :^) c ?", seq(vec![O::Sub(vec![c(b'a'), c(b'b')]), opt(c(b'c'))])),
        49 => (" ab ! 1 ", { op = Opt { words: false, punct: false, fuzz: 1 }; seq(vec![c(b'a'), c(b'b')]) }),
        50 => ("a/* b */b//c", seq(vec![c(b'a'), c(b'b')])),
        51 => ("[a/**/-/* x */c] -- d", O::C(7)),
        52 => ("<a/*c*/b>", O::Ana(0, 0, vec![0, 1])),
        _ => ("b", c(b'b')),
    };
    if i == 14 || i == 16 || i == 33 { return }
    let ast = parse(s, 19101);
    let w = sym_chars(len as u8, any == 0);
    let got = hits1(&ast, &w, 1, 19102);
    let (lo, hi) = accepts(&o, op, &w);
    judge(got, lo, hi, 19110);
}

// ---- C12 print and parse again
fn reparse(e: &ExpressionAst, id: u64) -> ExpressionAst {
    let s = e.to_string();
    for b in s.as_bytes() { sym::observe(*b as u64) }
    match ExpressionAst::new_from_str(&s) { Ok(x) => x, Err(_) => sym::fail(id) }
}
fn real(e: noodle::Expression, words: &[Word]) -> bool {
    let mut q = QueryEvaluator::new(vec![e], words, 1, None);
    collect(&mut q, 1000, 12002).hits.len() == 1
}
fn same_meaning(e: &ExpressionAst, len: u64, id: u64) {
    let r = reparse(e, id);
    if r.options != e.options { sym::fail(id + 1) }
    let (x, y) = (noodle::Expression::from_ast(e), noodle::Expression::from_ast(&r));
    let words: [Word; 1] = [word(&sym_chars(len as u8, false), 0, 7)];
    let (x, y) = (real(x, &words), real(y, &words));
    sym::observe(x as u64);
    sym::cover(if x { 1 } else { 2 });
    if x != y { sym::fail(id + 2) }
}
/// Trees built directly.
pub fn roundtrip_tree(fam: u64, kind: u64, len: u64, _d: u64) {
    let g = match fam { 0 => G { classes: CL3, reps: REPS, subs: true, empty: false }, 1 => G { classes: CLX, reps: REPS, subs: true, empty: false }, _ => G { classes: CLS, reps: REPS5, subs: true, empty: false } };
    let o = if fam == 2 { g.of_kind(kind as u8, 1, true) } else if fam == 3 { O::Seq(vec![g.class(), g.of_kind(kind as u8, 1, true)]) } else { g.of_kind(kind as u8, 2, true) };
    let mut opt = o.auto(Opt::new());
    if fam == 2 { opt.words = sym::choose(2) == 1; opt.punct = sym::choose(2) == 1; opt.fuzz = sym::choose(2) as usize }
    let opt = o.auto(opt);
    same_meaning(&to_expr_ast(&o, opt), len, 12010);
}
const PRINTED: &[&str] = &["3 2", "(ab:+)", "(ab:-)c", "<ab>", "<ab+>c", "<aab->", "<ab+1>", "<aab-1>", "(<ab>c)*", "(a|b)* !_ !'", "[^a]b", "[^a-z]?a", "[a-z_']b", "a{0}b", "(a?)?b", "((a*)b)+", "(a|(b|c))d", "((ab:^)c:^)", "(ab:^)*", "a_b'c", "(a(bc)?:-)", "2{2}", "ab !1", "a !2 !_", "(a:^)", "((a))", "(a|b:^)c", "(.:+)", "[A-C]x", "((a|b)c*|d)"];
/// Expressions as parsed from text (after anagram expansion).
pub fn roundtrip_text(from: u64, to: u64, len: u64, _d: u64) {
    let i = from + sym::choose((to - from) as u8) as u64;
    let s = match PRINTED.get(i as usize) { Some(s) => *s, None => return };
    let ast = match QueryAst::new_from_str(s) { Ok(a) => a, Err(_) => return };
    // the expression as written: anagrams are kept
    if let Ok(e) = ExpressionAst::new_from_str(s) {
        let r = reparse(&e, 12020);
        if r.options != e.options { sym::fail(12021) }
        let r2 = reparse(&r, 12022);
        if r2 != r { sym::fail(12023) }
    } else { sym::fail(12024) }
    let k = sym::choose(ast.expressions.len() as u8) as usize;
    same_meaning(&ast.expressions[k], len, 12030);
}
/// Printing keeps anagram terms as they are.
pub fn roundtrip_anagram(_a: u64, banks: u64, _c: u64, _d: u64) {
    let bank = BANKS[sym::choose(banks as u8) as usize];
    let k = sym::choose(5);
    let n = if k >= 3 { sym::choose(3) as usize } else { 0 };
    let mut t = String::from("<");
    for b in bank { t.push((b'a' + b) as char) }
    t.push_str(&suffix(k, n));
    t.push('>');
    let s = match sym::choose(4) { 0 => t, 1 => format!("({}a)*", t), 2 => format!("{}?b|{}", t, t), _ => format!("{} !'", t) };
    let e = match ExpressionAst::new_from_str(&s) { Ok(e) => e, Err(_) => sym::fail(12040) };
    let r = reparse(&e, 12041);
    let q1 = parse(&s, 12042);
    let q2 = parse(&e.to_string(), 12043);
    sym::cover(1);
    if r.options != e.options { sym::fail(12044) }
    let c = sym_chars(2, true);
    let words: [Word; 1] = [word(&c, 0, 7)];
    let mut a = QueryEvaluator::from_ast(&q1, &words); a.set_search_depth_limit(1);
    let mut b = QueryEvaluator::from_ast(&q2, &words); b.set_search_depth_limit(1);
    if collect(&mut a, 10000, 12045).hits.len() != collect(&mut b, 10000, 12046).hits.len() { sym::fail(12047) }
}
