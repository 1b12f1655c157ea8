//! Arbitrary texts, and texts made of several lines.
use crate::multi::*;
use crate::oracle::*;
use crate::sym;
use crate::text::ascii;
use crate::util::*;
use noodle::parser::QueryAst;
use noodle::{QueryEvaluator, Word};

// ---- C11: any text
/// Hole bytes in templates: 1 any ASCII byte, 2 any digit, 3 any printable byte, 4 one of `(|)`.
fn fill(t: &[u8]) -> String {
    let v: Vec<u8> = t.iter().map(|b| match b {
        1 => sym::range(0, 127),
        2 => b'0' + sym::choose(10),
        3 => sym::range(b' ', b'~'),
        4 => pick(b"(|)"),
        b => *b,
    }).collect();
    ascii(&v)
}
const TEMPLATES: &[&[u8]] = &[
    b"a{\x01}", b"a{2\x01\x02}", b"<a\x01\x01>", b"(a:\x01\x01", b"[\x01-\x01]", b"[^\x01\x01", b"#\x03\x03", b"a=\x03\x03\na", b"a\x01\x01b", b"!\x01\x01",
    b"a!\x01!\x01", b"(\x01|\x01)", b"#limit\x03\x03", b"#words \x02\x02", b"#dict \x03\x03", b"A=\x03;B=A\x03;B", b"(a\x01:-)", b"a{,\x01\x01", b"\x01\x01*", b"a//\x01\x01", b"/*\x01\x01*/",
    b"<ab\x01\x02>", b"[a\x01\x01]", b"#wordlist\n\x01\x01", b"(\x01:^)\x01", b"a{\x02}{\x02}", b"\x02 \x02", b"((\x01)\x01)", b"a{\x02,\x02}", b"--\x01\n\x01", b"(a\x01b:+)", b"[\x01]{\x01}", b"#\x01words 1", b"<\x01a->", b"<a-\x01>", b"a\x01=b\n\x01a",
    b"\x04\x04\x04\x04", b"(\x04a\x04\x04)", b"a\n\x01\x01\nb", b"a;\x01;\x01", b"\xc3\xa9\x01", b"[\xc3\xa9\x01]",
];
/// Turns an accepted query into a runnable one, and takes a few steps.
fn runnable(ast: &QueryAst, steps: bool) {
    let l: Vec<Word> = vec![word(&[0, END], 0, 0), word(&[1, 0, END], 0, 1)];
    let mut q = QueryEvaluator::from_ast(ast, &l);
    if steps {
        q.set_search_depth_limit(1);
        let o = collect(&mut q, 10000, 1102);
        if o.completes != 1 { sym::fail(1103) }
    }
}
fn accept(s: &str, run: bool) {
    sym::note(|| format!("text {:?}", s));
    match QueryAst::new_from_str(s) {
        Ok(q) => { sym::cover(1); sym::observe(1 + q.expressions.len() as u64); if run { runnable(&q, true) } }
        Err(e) => {
            sym::cover(2);
            let l = line_of(&format!("{:?}", e.line_col));
            sym::observe(1000 + l);
            let n = s.bytes().filter(|b| *b == b'\n' || *b == b';').count() as u64 + 1;
            if l < 1 || l > n { sym::fail(1104) }
            if e.to_string().is_empty() { sym::fail(1105) }
        }
    }
}
/// The first number in `Pos((3, 5))` or `Span((3, 1), (3, 4))`.
fn line_of(s: &str) -> u64 {
    let mut x = 0; let mut any = false;
    for b in s.bytes() { if b.is_ascii_digit() { x = x * 10 + (b - b'0') as u64; any = true } else if any { break } }
    x
}
/// a: 0 = `b` arbitrary bytes, 1 = templates b..c; d: 1 = run it too
pub fn any_text(form: u64, b: u64, c: u64, run: u64) {
    let s = match form {
        0 => { let v: Vec<u8> = (0..b).map(|_| sym::range(0, 127)).collect(); ascii(&v) }
        _ => fill(TEMPLATES[b as usize + sym::choose((c - b) as u8) as usize]),
    };
    accept(&s, run == 1);
}
/// Numbers of any size where a number can stand.
pub fn numbers(from: u64, to: u64, _c: u64, _d: u64) {
    const AT: &[(&str, &str)] = &[("a{", "}"), ("a{", ",}"), ("a{,", "}"), ("a{2,", "}"), ("a{", ",3}"), ("<ab+", ">"), ("<ab-", ">"), ("", ""), ("3 ", ""), ("a !", ""), ("#words ", "\na"), ("#limit ", "\na"), ("(a{", "}b)*"), ("((ab){", "}c){9}"), ("a{", "}{2}"), ("(a|<ab+", ">)*"), ("[ab]{1,", "}"), ("(<abc-", ">:^)")];
    let i = from as usize + sym::choose((to - from) as u8) as usize;
    let (pre, post) = AT[i];
    let digits = if i == 13 { pick(&[1usize, 3, 5, 10, 20, 21]) } else { pick(&[1usize, 2, 3, 4, 5, 7, 10, 19, 20, 21, 25, 40]) };
    let first = b'0' + sym::choose(10);
    let rest = pick(b"09");
    let mut v = vec![first];
    for _ in 1..digits { v.push(rest) }
    let s = format!("{}{}{}", pre, ascii(&v), post);
    // the search itself only where it is small
    accept_sized(&s, digits <= 2 && i != 13);

}
fn accept_sized(s: &str, small: bool) {
    sym::note(|| format!("text {:?}", s));
    match QueryAst::new_from_str(s) {
        Ok(q) => { sym::cover(1); sym::observe(1 + q.expressions.len() as u64); if small { runnable(&q, true) } }
        Err(e) => { sym::cover(2); let l = line_of(&format!("{:?}", e.line_col)); if l < 1 || l > 2 { sym::fail(1104) } }
    }
}
/// The error names the line.
pub fn error_line(lines: u64, bads: u64, _c: u64, _d: u64) {
    const GOOD: &[&str] = &["a", "#words 2", "", "V=ab", "//x", "<ab>"];
    const BAD: &[&[u8]] = &[b"(", b"a{\x02", b"a{3,\x02}", b")\x03", b"#bad", b"a{99999999999999999999\x02}", b"[", b"?\x02", b"#words 99999999\x02", b"a !9999999999\x02", b"(a|b:^)", b"a{,", b"\xc3\xa9", b"<1>"];
    let n = lines as usize;
    let at = if n < 10 { sym::choose(n as u8) as usize } else { [0, 9, n / 2, n - 1][sym::choose(4) as usize] };
    let sep = if sym::choose(2) == 0 { "\n" } else { ";" };
    let mut s = String::new();
    let shift = if n < 10 { 0 } else { sym::choose(2) as usize };
    for i in 0..n {
        if i > 0 { s.push_str(sep) }
        if i == at { s.push_str(&fill(BAD[sym::choose(bads as u8) as usize])) } else { s.push_str(GOOD[(i * 5 + at + if n < 10 { sym::choose(2) as usize } else { shift }) % GOOD.len()]) }
    }
    sym::note(|| format!("text {:?}", s));
    match QueryAst::new_from_str(&s) {
        Ok(_) => { sym::cover(1); sym::observe(0) }     // the hole made it fine
        Err(e) => {
            sym::cover(2);
            let l = line_of(&format!("{:?}", e.line_col));
            sym::observe(l);
            if l != at as u64 + 1 { sym::fail(1106) }
        }
    }
}
/// Deep nesting and macros that expand a lot.
pub fn deep(form: u64, n: u64, _c: u64, _d: u64) {
    let n = n as usize;
    let x = pick(b"aq");
    let s = match form {
        0 => format!("{}{}{}", "(".repeat(n), x as char, ")".repeat(n)),
        1 => format!("{}{}", "(".repeat(n), x as char),
        2 => format!("{}{}{}", "(".repeat(n), x as char, ":^)".repeat(n)),
        3 => format!("{}{}{}", "(".repeat(n), x as char, ")*".repeat(n)),
        4 => {
            let mut s = String::from("AA=ab\n");
            for i in 0..n { s.push_str(&format!("A{}={}{}\n", (b'B' + i as u8) as char, format!("A{}", (b'A' + i as u8) as char), format!("A{}", (b'A' + i as u8) as char))) }
            s.push_str(&format!("A{}", (b'A' + n as u8) as char));
            s
        }
        5 => { let mut s = String::from("F=((((((((((\n"); for _ in 0..n { s.push('F') } s.push(x as char); s }
        _ => format!("{}{}", "(a".repeat(n), "|b)".repeat(n)),
    };
    sym::note(|| format!("text of {} bytes", s.len()));
    match QueryAst::new_from_str(&s) {
        Ok(q) => { sym::cover(1); sym::observe(1); if n <= 60 { runnable(&q, n <= 8) } }
        Err(_) => { sym::cover(2); sym::observe(2) }
    }
}

// ---- C15
/// A short expression text with arbitrary letters.
fn piece(k: u8) -> Vec<u8> {
    let l = || sym::range(b'a', b'z');
    match k { 0 => vec![l(), b'b'], 1 => vec![l(), b'*', b'c'], 2 => vec![b'(', l(), b'|', b'd', b')'], 3 => vec![b'<', l(), b'b', b'>'], 4 => vec![b'[', l(), l(), b']'], 5 => b"2 3".to_vec(), _ => vec![b'a', l(), b' ', b'!', b'1'] }
}
fn same(x: &QueryAst, y: &QueryAst, id: u64) {
    sym::cover(1);
    if x.expressions != y.expressions { sym::fail(id) }
    if x.options != y.options { sym::fail(id + 1) }
}
/// Comments, blank lines and separators change nothing.
pub fn decorated(pieces: u64, styles: u64, _c: u64, _d: u64) {
    let n = 1 + sym::choose(2) as usize;
    let parts: Vec<Vec<u8>> = (0..n).map(|_| piece(sym::choose(pieces as u8))).collect();
    let pragma = sym::choose(3);
    let mut plain: Vec<Vec<u8>> = parts.clone();
    match pragma { 1 => plain.insert(0, b"#words 3".to_vec()), 2 => plain.push(b"#limit 7".to_vec()), _ => {} }
    let x = |lo: u8, hi: u8| sym::range(lo, hi);
    let st = sym::choose(styles as u8);
    let mut v: Vec<u8> = vec![];
    for (i, p) in plain.iter().enumerate() {
        if i > 0 { v.push(if st % 2 == 0 { b'\n' } else { b';' }) }
        match st {
            // comments after the expression
            2 => { v.extend_from_slice(p); v.extend_from_slice(b" //"); let c = x(b' ', b'~'); sym::assume(c != b';'); v.push(c); }
            3 => { v.extend_from_slice(p); v.extend_from_slice(b"--"); v.push(x(b'<', b'~')); v.push(b'z'); }
            4 => { v.extend_from_slice(b"/*"); let c = x(b' ', b'~'); sym::assume(c != b';' && c != b'*'); v.push(c); v.extend_from_slice(b"*/"); v.extend_from_slice(p); }
            // inside
            5 => { v.extend_from_slice(p); v.extend_from_slice(b" /**/ "); }
            // lines of their own
            6 => { v.extend_from_slice(b"// a*"); v.push(b'\n'); v.extend_from_slice(b"  \n"); v.extend_from_slice(p); v.extend_from_slice(b"\n/*b*/"); }
            7 => { v.extend_from_slice(b";; "); v.extend_from_slice(p); v.extend_from_slice(b"  ;--"); }
            8 => { v.push(b' '); v.extend_from_slice(p); v.push(b' '); v.extend_from_slice(b"// /* x"); }
            9 => { v.extend_from_slice(b"/* // */"); v.extend_from_slice(p); v.extend_from_slice(b"/* a */// b"); }
            _ => v.extend_from_slice(p),
        }
    }
    let a: Vec<u8> = plain.join(&b'\n');
    let q1 = parse(&ascii(&a), 1501);
    let q2 = parse(&ascii(&v), 1502);
    sym::observe(q1.expressions.len() as u64);
    if q1.expressions.len() < n { sym::fail(1505) }
    same(&q1, &q2, 1503);
}
/// Naive replacement from left to right, written out on bytes.
fn replace(s: &[u8], name: &[u8], value: &[u8]) -> Vec<u8> {
    let mut v = vec![]; let mut i = 0;
    while i < s.len() {
        if i + name.len() <= s.len() && s[i..i + name.len()] == *name { v.extend_from_slice(value); i += name.len() } else { v.push(s[i]); i += 1 }
    }
    v
}
/// Macros, against the text with the replacements made by hand.
pub fn macros(form: u64, sepkind: u64, _c: u64, _d: u64) {
    let val = || -> Vec<u8> { match sym::choose(4) { 0 => vec![sym::range(b'a', b'z')], 1 => vec![b'[', sym::range(b'a', b'z'), b'b', b']'], 2 => vec![b'(', b'a', b'|', sym::range(b'a', b'z'), b')'], _ => vec![sym::range(b'a', b'z'), b'*', b'c'] } };
    let sep: u8 = if sepkind == 1 { b';' } else { b'\n' };
    // (name, value) in order, then lines that use them
    let (v1, v2) = (val(), val());
    let n1: &[u8] = pick(&[&b"V"[..], b"AB", b"X1", b"Q_Q"]);
    let mut defs: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    let mut before: Vec<Vec<u8>> = vec![];
    let mut after: Vec<Vec<u8>> = vec![];
    let cat = |p: &[&[u8]]| -> Vec<u8> { p.concat() };
    match form {
        0 => { defs.push((n1.to_vec(), v1)); after.push(cat(&[b"d", n1, b"e"])); }
        // two macros, one of which is the beginning of the other's name
        1 => { defs.push((b"A".to_vec(), v1)); defs.push((b"BCB".to_vec(), v2)); after.push(b"dA".to_vec()); after.push(b"BCBA".to_vec()); }
        2 => { defs.push((b"XY".to_vec(), v1)); defs.push((b"X".to_vec(), v2)); after.push(b"XXYd".to_vec()); after.push(b"X".to_vec()); }
        // a value that uses an earlier macro
        3 => { defs.push((b"V".to_vec(), v1)); defs.push((b"W".to_vec(), cat(&[b"V", &v2, b"V"]))); after.push(b"Wd".to_vec()); }
        // a value that uses a later macro: replaced in the order of definition
        4 => { defs.push((b"V".to_vec(), cat(&[b"dW", &v1]))); defs.push((b"W".to_vec(), v2)); after.push(b"Vd".to_vec()); after.push(b"WV".to_vec()); }
        // lines before the definition keep the name
        5 => { before.push(b"VV".to_vec()); defs.push((b"V".to_vec(), v1)); after.push(b"dVe".to_vec()); }
        // replaced in pragmas too
        6 => { defs.push((b"NUM".to_vec(), vec![sym::range(b'1', b'9')])); after.push(b"#words NUM".to_vec()); after.push(b"ab".to_vec()); }
        // many macros, long values
        11 => {
            let n = 20;
            let mut s = vec![];
            for i in 0..n as u8 {
                let name = vec![b'A' + i, b'A' + i * 7 % 26, b'Z'];
                let mut v = if i % 9 == 4 { b"abcd".repeat(20) } else { vec![b'a' + i] };
                if i == n - 1 { v.extend_from_slice(&v1) }
                if i == 0 || i == 10 || i == n - 1 { s.extend_from_slice(&name) }
                defs.push((name, v));
            }
            after.push(s);
            after.push(b"EC".to_vec());
            after.push(cat(&[&b"x"[..], &defs[4].0, &defs[13].0]));
        }
        // used many times in one line
        8 => {
            let n = 2 + sym::choose(4) as usize;
            let mut s = vec![];
            for i in 0..n { s.extend_from_slice(n1); if i % 2 == 1 { s.push(b'd') } }
            defs.push((n1.to_vec(), v1)); after.push(s); after.push(cat(&[n1, b"e", n1, n1]));
        }
        // a chain in which each value uses the one before several times
        9 => { defs.push((b"V".to_vec(), v1)); defs.push((b"W".to_vec(), b"VVV".to_vec())); defs.push((b"Q".to_vec(), cat(&[b"W", &v2, b"WV"]))); after.push(b"QeQ".to_vec()); after.push(b"WVW".to_vec()); }
        // long values
        10 => { defs.push((b"LONG".to_vec(), cat(&[&v1, b"abcdefghij", &v2, b"(k|l)*m{2,3}"]))); after.push(b"(LONG)?LONG".to_vec()); after.push(b"(LONG|n)LONGLONG".to_vec()); }
        // spaces around, used inside of a group with a count
        _ => { defs.push((b"V".to_vec(), v1)); after.push(b"(dV){2}|V".to_vec()); after.push(b"<ab>V?".to_vec()); }
    }
    let mut text: Vec<u8> = vec![];
    let mut plain: Vec<u8> = vec![];
    for b in &before { text.extend_from_slice(b); text.push(sep); plain.extend_from_slice(b); plain.push(b'\n'); }
    let mut known: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    for (n, v) in &defs {
        text.extend_from_slice(n); if form == 7 { text.extend_from_slice(b" = ") } else { text.push(b'=') } text.extend_from_slice(v); text.push(sep);
        // the value as it is on its line
        let mut w = v.clone();
        for (a, b) in &known { w = replace(&w, a, b) }
        known.push((n.clone(), w));
    }
    for (i, l) in after.iter().enumerate() {
        if i > 0 { text.push(sep); plain.push(b'\n') }
        text.extend_from_slice(l);
        let mut w = l.clone();
        for (a, b) in &known { w = replace(&w, a, b) }
        plain.extend_from_slice(&w);
    }
    sym::note(|| format!("with macros {:?}, by hand {:?}", ascii(&text), ascii(&plain)));
    let q1 = parse(&ascii(&text), 1511);
    let q2 = parse(&ascii(&plain), 1512);
    sym::observe(q1.expressions.len() as u64);
    if q1.expressions.len() < after.len() - (form == 6) as usize { sym::fail(1515) }
    same(&q1, &q2, 1513);
}
/// Pragmas set their option and nothing else. Letters in any case.
pub fn pragmas(from: u64, to: u64, _c: u64, _d: u64) {
    let any_case = |s: &str| -> Vec<u8> { let flip = sym::choose(3); s.bytes().enumerate().map(|(i, b)| if !b.is_ascii_lowercase() { b } else if flip == 0 { b } else if flip == 1 { b - 32 } else if i == 3 { b - 32 * sym::range(0, 1) } else { b }).collect() };
    let i = from as u8 + sym::choose((to - from) as u8);
    let (d1, d2) = (sym::range(b'0', b'9'), sym::range(b'0', b'9'));
    // more digits in front
    let high = sym::choose(match i { 0 | 5 => 4, 1 | 4 => 3, _ => 1 }) as usize;
    let num = [0, 300, 12000, 65500][high] + (d1 - b'0') as usize * 10 + (d2 - b'0') as usize;
    let high = [&b""[..], b"3", b"120", b"655"][high];
    let name = vec![sym::range(b'a', b'z'), b'-', pick(b"x7_"), sym::range(b'A', b'Z')];
    let (mut v, what) = match i {
        0 => ([&any_case("#limit")[..], b" ", high, &[d1, d2]].concat(), 0),
        1 => ([&any_case("#words")[..], b"  ", high, &[d1, d2]].concat(), 1),
        2 => (any_case("#quiet"), 2),
        3 => ([&any_case("#dict")[..], b" ", &name].concat(), 3),
        4 => ([&any_case("#words")[..], high, &[d1, d2], b" // n"].concat(), 1),
        5 => ([b"  ", &any_case("#limit")[..], b" ", high, &[d1, d2], b" "].concat(), 0),
        6 => ([&any_case("#dictionary")[..], b" ", &name].concat(), 3),
        _ => ([&any_case("#dict")[..], b" ", &name, b" -- c"].concat(), 3),
    };
    // with expressions before or after
    let place = sym::choose(3);
    match place { 1 => v = [&b"ab\n"[..], &v].concat(), 2 => v = [&v[..], b";a*b"].concat(), _ => {} }
    let q = parse(&ascii(&v), 1521);
    let o = &q.options;
    sym::cover(1);
    sym::observe(q.expressions.len() as u64);
    if q.expressions.len() != (place > 0) as usize { sym::fail(1522) }
    if o.results_limit.is_some() != (what == 0) || o.max_words.is_some() != (what == 1) || o.quiet.is_some() != (what == 2) || o.dictionary.is_some() != (what == 3) || o.wordlist.is_some() { sym::fail(1523) }
    match what {
        0 => sym::check(o.results_limit == Some(num), 1524),
        1 => sym::check(o.max_words == Some(num), 1525),
        2 => if o.quiet != Some(true) { sym::fail(1526) },
        _ => if o.dictionary.as_ref().map(|d| d.as_bytes() == &name[..]) != Some(true) { sym::fail(1527) },
    }
}
/// `#wordlist`: the rest of the text is the wordlist. a: how many words, b: letters in each
pub fn inline(n: u64, len: u64, depth: u64, more: u64) {
    let sep: u8 = pick(b"\n;");
    let (head, tree): (&[u8], O) = pick(&[(&b".*"[..], 0u8), (b"a.*", 1), (b"(ab)*", 2)].map(|x| x)).into_tree();
    let mut v = head.to_vec();
    v.push(sep);
    v.extend_from_slice(match sym::choose(2) { 0 => b"#wordlist", _ => b"#WORDLIST" });
    let mut words: Vec<Vec<u8>> = vec![];
    for i in 0..n {
        v.push(sep);
        if sym::choose(2) == 1 { v.push(if i % 2 == 0 { b' ' } else { sep }) }
        let w: Vec<u8> = (0..len).map(|_| sym::range(b'a', b'z')).collect();
        v.extend_from_slice(&w);
        // what looks like a pragma or comment is a word here
        words.push(w);
    }
    // and many others
    for i in 0..more {
        let w = vec![b'a' + (i % 3) as u8, b'a' + (i % 7) as u8, b'a' + (i / 26 % 26) as u8, b'a' + (i % 26) as u8];
        v.push(sep);
        v.extend_from_slice(&w);
        words.push(w);
    }
    let s = ascii(&v);
    let q = parse(&s, 1531);
    let wl = match &q.options.wordlist { Some(w) => w, None => sym::fail(1532) };
    if wl.len() != words.len() { sym::fail(1533) }
    if q.expressions.len() != 1 { sym::fail(1534) }
    // every line is there, once
    let mut used = vec![false; wl.len()];
    for w in &words {
        let mut found = false;
        for (i, x) in wl.iter().enumerate() {
            if !used[i] && x.text.as_bytes() == &w[..] {
                used[i] = true; found = true;
                if x.chars.len() != w.len() + 1 { sym::fail(1535) }
                for j in 0..w.len() { sym::check(x.chars[j].as_index() == (w[j] - b'a') as usize, 1536) }
                break;
            }
        }
        if !found { sym::fail(1537) }
    }
    // and it is what is searched, instead of the list given
    let other = [word(&[0, END], 0, 0), word(&[0, 1, END], 0, 1)];
    let texts = |q: &mut QueryEvaluator| -> Vec<Vec<u8>> {
        let mut r = vec![]; let mut n = 0;
        while let Some(x) = q.next() { n += 1; if n > 1000 { sym::fail(1538) } if let noodle::QueryResponse::Match(p) = x { if p.len() == 1 { r.push(p[0].text.as_bytes().to_vec()) } } }
        r
    };
    let mut e = QueryEvaluator::from_ast(&q, &other);
    e.set_search_depth_limit(depth as usize);
    let mut got = texts(&mut e);
    let mut want: Vec<Vec<u8>> = vec![];
    for w in &words {
        let mut c: Vec<u8> = w.iter().map(|x| x - b'a').collect(); c.push(END);
        let (lo, _) = accepts(&tree, Opt::new(), &c);
        if lo != 0 { want.push(w.clone()) }
    }
    sym::cover(if got.is_empty() { 2 } else { 1 });
    sym::observe(got.len() as u64);
    got.sort(); want.sort();
    if got != want { sym::fail(1539) }
}
trait IntoTree { fn into_tree(self) -> (&'static [u8], O); }
impl IntoTree for (&'static [u8], u8) {
    fn into_tree(self) -> (&'static [u8], O) {
        (self.0, match self.1 { 0 => rep(O::C(LETTERS), 0, None), 1 => O::Seq(vec![O::C(A), rep(O::C(LETTERS), 0, None)]), _ => rep(O::Seq(vec![O::C(A), O::C(B)]), 0, None) })
    }
}
/// Several expressions on lines or separated by semicolons are all required.
pub fn line_and(shape: u64, fam: u64, _c: u64, _d: u64) {
    let g = G { classes: CL3, reps: REPS5, subs: false, empty: false };
    let e: Vec<E> = if fam > 0 { family(fam) } else { (0..2 + sym::choose(2)).map(|i| if i == 2 { (rep(O::C(LETTERS), 0, None), Opt::new()) } else { (g.any(1, true), Opt::new()) }).collect() };
    let sep = if sym::choose(2) == 0 { "\n" } else { ";" };
    let s: Vec<String> = e.iter().map(|(o, p)| line(o, *p)).collect();
    let q = parse(&s.join(sep), 1541);
    if q.expressions.len() != e.len() { sym::fail(1542) }
    let l = list(shape, 0, &|| letter());
    let mut ev = QueryEvaluator::from_ast(&q, &l.words);
    ev.set_search_depth_limit(1);
    let out = collect(&mut ev, 1000, 1543);
    observe_out(&out);
    sym::cover(if out.hits.is_empty() { 2 } else { 1 });
    let mut ok = 1;
    for (i, c) in l.chars.iter().enumerate() {
        let (lo, hi) = all_accept(&e, c);
        if out.hits.iter().any(|h| h[0] == i as u32) { ok &= hi } else { ok &= lo ^ 1 }
    }
    sym::check(ok != 0, 1544);
}
