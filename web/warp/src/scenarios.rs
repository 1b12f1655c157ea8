//! The web application, seen from its clients.
use crate::sym;
use crate::world::*;
use crate::{Out, Request};
use noodle::{parser::QueryAst, QueryEvaluator, QueryResponse, Word};
use std::cell::RefCell;
use std::rc::Rc;

/// Query texts; `$` is an arbitrary letter of a, b, c.
const QUERIES: &[&str] = &[".*$.*", "<ab$>", "a.*;$.*", "#words 1;#limit 2\n.*", "(a$", "#dict other;#words 1;.*$", "#dict nosuch;#words 1;$.*", "", "#words 1;$b", "#words 1;[aI]|...-$", "#limit 1;.+$", "#words 2;#limit 9;a.*",
    "#words 1;#limit 2\n.*$.*", "a\nb\"$\\(", "#words 1;.*u;$?.*", "#limit 0;$.*", "#words 1;.*;#dict  other \n$.*", "#words 2;a$", "#words 2;#limit 17;$?.*"];
fn query(k: u64) -> Vec<u8> {
    let mut v = vec![]; let l = sym::range(b'a', b'c');
    for c in QUERIES[k as usize].bytes() { v.push(if c == b'$' { l } else { c }) }
    sym::note(|| format!("query {:?}", String::from_utf8_lossy(&v)));
    v
}
struct Expected { phrases: Vec<Vec<Word>>, error: Option<String>, limited: bool }
/// The results of the search itself. `phrases` are cut off after `cap`.
fn search(q: &[u8], lists: &[(&str, Vec<Word>)], cap: usize) -> Expected {
    let ast = match QueryAst::new_from_str(std::str::from_utf8(q).unwrap()) { Ok(x) => x, Err(e) => return Expected { phrases: vec![], error: Some(e.to_string()), limited: false } };
    let dict = match &ast.options.dictionary { Some(d) => d.clone(), None => "default".to_string() };
    let words = &lists.iter().find(|x| x.0 == dict).unwrap_or(&lists[0]).1;
    let mut e = QueryEvaluator::from_ast(&ast, words);
    let mut phrases = vec![];
    while phrases.len() < cap { match e.next() { Some(QueryResponse::Match(p)) => phrases.push(p), Some(QueryResponse::Complete(_)) | None => break, _ => {} } }
    Expected { phrases, error: None, limited: ast.options.results_limit.is_some() }
}
fn lists() -> Vec<(&'static str, Vec<Word>)> { LISTS.iter().map(|x| (x.0, list(x.0))).collect() }
fn metric(name: &str) -> u64 {
    let t = text_of(request(get(&["metrics"])));
    for l in t.lines() { if let Some(r) = l.strip_prefix(name) { if let Ok(x) = r.trim().parse() { return x } } }
    sym::fail(2005)
}
fn json_string(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() { match c { '"' => r.push_str("\\\""), '\\' => r.push_str("\\\\"), c => r.push(c) } }
    r.push('"'); r
}
/// Is this the message of a result, with these words?
fn is_match(m: &str, p: &[Word]) -> bool {
    if !m.starts_with("{\"match\":") { return false }
    let mut rest = m;
    for w in p {
        let t = format!("\"text\":{}", json_string(&w.text));
        let i = match rest.find("\"text\":") { Some(i) => i, None => return false };
        if !rest[i..].starts_with(&t) { return false }
        rest = &rest[i + t.len()..];
        let s = format!("\"score\":{}", w.score);
        match rest.find("\"score\":") { Some(j) if rest[j..].starts_with(&s) => rest = &rest[j + s.len()..], _ => return false }
    }
    !rest.contains("\"text\":")
}
fn observe(v: &[String]) { sym::observe(v.len() as u64); for m in v { let mut h = 7u64; for b in m.bytes() { h = h.wrapping_mul(31).wrapping_add(b as u64) } if !m.contains("Parsed") && !m.contains("ms)") && !m.contains("s)") && !m.contains("Timeout") { sym::observe(h) } } }

/// `a`: number of the query (and 100 times that of the second client, plus 1), `b`: faults: 1 the client leaves, 2 sending fails, 4 it writes again, 8 waits, 32 waits once, 16 other first messages;
/// `c`: jumps of the clock, 10 times how many reads apart at most, and 1000 times how late faults come at most; `d`: results taken at most into account.
pub fn websocket(a: u64, b: u64, c: u64, d: u64) {
    let lists = lists(); let reach = (c / 1000) as u8;
    let mut ss = vec![]; let mut want = vec![];
    for k in [Some(a % 100), (a / 100).checked_sub(1)].iter().flatten() {
        let mut first = First::Text(vec![]);
        let mut e = Expected { phrases: vec![], error: Some(String::new()), limited: false };
        let kind = if b & 16 != 0 { sym::choose(4) } else { 3 };
        match kind {
            0 => first = First::Binary, 1 => first = First::Error, 2 => first = First::Nothing,
            _ => { let q = query(*k); e = search(&q, &lists, d as usize); first = First::Text(q) }
        }
        let mut s = Session::new(first);
        if b & 1 != 0 { s.close_at = sym::range(1, reach) as u64 }
        if b & 2 != 0 { s.fail_at = sym::range(0, reach) as u64 }
        if b & 4 != 0 { s.extra_at = sym::range(1, reach) as u64 }
        if b & 8 != 0 { s.delay = sym::choose(2) == 1; s.ready_at = sym::range(0, reach) as u64; s.flush_at = sym::range(1, reach) as u64 }
        if b & 32 != 0 { s.ready_at = sym::range(0, reach) as u64 }
        ss.push(Rc::new(RefCell::new(s))); want.push(e);
    }
    let alone = ss.len() == 1; let before = metric("noodle_queries_total ");
    if metric("noodle_queries_active ") != 0 { sym::fail(2010) }
    clock(c % 10, (c / 10 % 100) as u8);
    let mut tasks = vec![];
    for s in &ss {
        let r = Request { path: vec!["ws".to_string()], socket: Some(s.clone()), ..Default::default() };
        match request(r) { Some(Out::Upgrade(f)) => tasks.push(f), _ => sym::fail(2006) }
    }
    let mut rounds = 0;
    loop {
        let open: Vec<usize> = (0..ss.len()).filter(|i| !ss[*i].borrow().done).collect();
        if open.is_empty() { break }
        let i = open[if open.len() > 1 { sym::choose(open.len() as u8) as usize } else { 0 }];
        rounds += 1;
        if rounds > 40 { sym::fail(2007) }
        if poll(&mut tasks[i]) { ss[i].borrow_mut().done = true }
        // a query counts while its client waits for it; whether a client that has not asked yet counts is left open
        let most = ss.iter().filter(|s| !s.borrow().done).count() as u64;
        let least = ss.iter().filter(|s| { let s = s.borrow(); !s.done && s.taken && matches!(s.first, First::Text(_)) }).count() as u64;
        let n = metric("noodle_queries_active ");
        if n < least || n > most { sym::fail(2011) }
    }
    drop(tasks);
    let passed = elapsed();
    clock_stop();
    sym::check(metric("noodle_queries_active ") == 0, 2012);
    let total = metric("noodle_queries_total ") - before;
    let texts = ss.iter().filter(|s| { let s = s.borrow(); s.taken && matches!(s.first, First::Text(_)) }).count() as u64;
    if total < texts || total > ss.len() as u64 { sym::fail(2026) }
    for (s, e) in ss.iter().zip(&want) {
        let s = s.borrow();
        observe(&s.sent);
        sym::note(|| format!("messages {:?}", s.sent));
        if s.closed != 1 || !s.dropped { sym::fail(2013) }
        if s.after_close { sym::fail(2014) }
        let mut seen = 0; let mut ends = 0; let mut timeouts = 0;
        for (i, m) in s.sent.iter().enumerate() {
            if s.close_seen.map_or(false, |n| i >= n) && !m.starts_with("{\"status\":") { sym::fail(2015) }
            if m.starts_with("{\"match\":") {
                if seen >= e.phrases.len() { if seen < d as usize { sym::fail(2016) } }
                else if !is_match(m, &e.phrases[seen]) { sym::fail(2017) }
                if ends > 0 { sym::fail(2018) }
                seen += 1;
            } else if let Some(t) = m.strip_prefix("{\"status\":\"") {
                if t.starts_with("Running") { if i != 0 || (alone && !t.contains("(0 other")) { sym::fail(2019) } }
                else if t.starts_with("Parsed") || t.starts_with("Processing") { if ends > 0 { sym::fail(2018) } }
                else { ends += 1; if t.starts_with("Timeout") { timeouts += 1 } }
            } else if !m.starts_with("{\"log\":") { sym::fail(2020) }
        }
        let broken = s.failed || s.close_seen.is_some() || !matches!(s.first, First::Text(_));
        sym::cover(if broken { 2 } else { 1 });
        if ends > 1 { sym::fail(2021) }
        if timeouts > 0 { sym::cover(3); if passed < 150_000 { sym::fail(2022) } }
        if !broken {
            if ends != 1 { sym::fail(2023) }
            if timeouts == 0 && seen < e.phrases.len() { sym::fail(2024) }
            if let Some(t) = &e.error {
                // the reason is told
                let t = json_string(t).replace('\n', "\\n");
                if !s.sent.iter().any(|m| m.starts_with("{\"log\":") && m.contains(&t)) { sym::fail(2025) }
            }
        } else if ends == 1 && timeouts == 0 && e.error.is_none() && seen < e.phrases.len() { sym::fail(2024) }
    }
}
/// `a`: number of the query, `b`: 0 by GET, 1 by POST, 2 by GET with escapes; `c` jumps of the clock, and 10 times how many reads apart at most.
pub fn http(a: u64, b: u64, c: u64, _: u64) {
    let lists = lists();
    let q = query(a);
    let e = search(&q, &lists, 400);
    let r = if b == 1 { Request { post: true, path: vec!["query".to_string()], body: q, ..Default::default() } } else {
        let mut p = String::new();
        for (i, x) in q.iter().enumerate() {
            if *x == b'$' || b == 2 && i % 2 == 0 || *x == b'\n' || *x == b'#' || *x == b';' {
                p.push('%');
                for n in [*x >> 4, *x & 15] { p.push(if n < 10 { b'0' + n } else { b'A' - 10 + n } as char) }
            } else { p.push(*x as char) }
        }
        get(&["query", &p])
    };
    sym::check(metric("noodle_queries_active ") == 0, 2010);
    let before = metric("noodle_queries_total ");
    clock(c % 10, (c / 10) as u8);
    let body = text_of(request(r));
    let passed = elapsed();
    clock_stop();
    sym::check(metric("noodle_queries_active ") == 0, 2012);
    sym::check(metric("noodle_queries_total ") == before + 1, 2026);
    sym::note(|| format!("body {:?}", body));
    if let Some(t) = e.error { sym::cover(2); if body.trim_end() != t.trim_end() { sym::fail(2031) } return }
    sym::cover(1);
    let most = if b == 1 || e.limited { e.phrases.len() } else { e.phrases.len().min(15) };
    let mut seen = 0; let mut timeout = false;
    for l in body.lines() {
        if l.starts_with("# Timeout") { timeout = true; continue }
        if timeout { sym::fail(2018) }
        if seen >= most { sym::fail(2016) }
        let p = &e.phrases[seen];
        let ok = if b == 1 { is_match(l, p) } else { l.split(' ').filter(|x| !x.is_empty()).eq(p.iter().map(|w| &w.text[..])) };
        if !ok { sym::fail(2017) }
        seen += 1;
    }
    sym::observe(seen as u64); sym::observe(timeout as u64);
    if timeout { sym::cover(3); if passed < if b == 1 { 150_000 } else { 10_000 } { sym::fail(2022) } }
    else if seen < most { sym::fail(2024) }
}
/// A text of 64 kB, and one that is longer.
pub fn large(_: u64, _: u64, _: u64, _: u64) {
    let n = if sym::choose(2) == 0 { 64 * 1024 } else { 64 * 1024 + 1 };
    let mut body = b"#words 1;ab".to_vec(); body.resize(n, b' ');
    match request(Request { post: true, path: vec!["query".to_string()], body, ..Default::default() }) {
        Some(Out::Text(200, v)) => { if n > 64 * 1024 { sym::fail(2045) } if !String::from_utf8(v).unwrap().contains("\"text\":\"ab\"") { sym::fail(2024) } sym::cover(1) }
        _ => { if n <= 64 * 1024 { sym::fail(2003) } sym::cover(2) }
    }
    sym::check(metric("noodle_queries_active ") == 0, 2012);
}
/// The wordlists as they can be looked at.
pub fn wordlists(_: u64, _: u64, _: u64, _: u64) {
    let l = lists();
    for (n, w) in &l {
        let t = text_of(request(get(&["wordlist", n])));
        if !t.lines().eq(w.iter().map(|w| &w.text[..])) { sym::fail(2041) }
        sym::check(metric(&format!("noodle_wordlist_size{{wordlist=\"{}\"}}", n)) == w.len() as u64, 2042);
        let js = text_of(request(get(&["wordlists.js"])));
        if !js.contains(&format!("\"name\": \"{}\", \"len\": {}", n, w.len())) { sym::fail(2043) }
        if js.contains(EXTRA) { sym::fail(2044) }
    }
    let t = text_of(request(get(&["wordlist", "nosuch"])));
    if !t.lines().eq(l[0].1.iter().map(|w| &w.text[..])) { sym::fail(2041) }
    sym::cover(1);
}
