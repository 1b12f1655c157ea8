//! Bridges between the reference model and noodle's public API.
use crate::oracle::*;
use crate::sym;
use noodle::expression::Expression;
use noodle::parser::{AnagramKind, Ast, ExpressionAst, ExpressionOptions, QueryAst};
use noodle::words::{Char, CharBitset};
use noodle::{QueryEvaluator, QueryResponse, Word};

pub const END: u8 = 27;

/// An arbitrary character (letter, punctuation or word boundary).
pub fn ch() -> u8 { sym::range(0, 27) }
pub fn letter() -> u8 { sym::range(0, 25) }

pub fn bitset(m: u32) -> CharBitset {
    let mut b = CharBitset::EMPTY;
    for i in 0..28 { if m >> i & 1 == 1 { b.union_with(CharBitset::from(Char::from_index(i))) } }
    b
}
/// Word number `id` with the given characters; the boundary is appended.
pub fn word(c: &[u8], tranche: u8, id: u32) -> Word {
    let mut chars = smallvec::SmallVec::new();
    for x in c { chars.push(Char::from_index(*x as usize)) }
    sym::note(|| format!("word {} tier {}", c.iter().map(|x| name(*x as u32)).collect::<String>(), tranche));
    Word { tranche, chars, text: "w".into(), score: id }
}
pub fn to_ast(o: &O) -> Ast {
    let all = |v: &Vec<O>| v.iter().map(to_ast).collect::<Vec<_>>();
    match o {
        O::C(m) => Ast::CharClass(bitset(*m)),
        O::Seq(v) => Ast::Sequence(all(v)),
        O::Alt(v) => Ast::Alternatives(all(v)),
        O::Sub(v) => Ast::Substring(all(v)),
        O::Rep(t, min, max) => Ast::Repetition { term: Box::new(to_ast(t)), min: *min, max: *max },
        O::Ana(k, n, b) => Ast::Anagram {
            kind: match k { 0 => AnagramKind::Standard, 1 => AnagramKind::Super, 2 => AnagramKind::Sub, 3 => AnagramKind::TransAdd(*n), _ => AnagramKind::TransDelete(*n) },
            bank: b.iter().map(|i| Char::from_index(*i as usize)).collect(),
        },
    }
}
pub fn to_expr_ast(o: &O, opt: Opt) -> ExpressionAst {
    ExpressionAst {
        root: to_ast(o),
        options: ExpressionOptions {
            explicit_word_boundaries: if opt.words { Some(true) } else { None },
            explicit_punctuation: if opt.punct { Some(true) } else { None },
            fuzz: if opt.fuzz > 0 { Some(opt.fuzz) } else { None },
        },
    }
}
pub fn expr(o: &O, opt: Opt) -> Expression {
    sym::note(|| format!("expression {}", line(o, opt)));
    Expression::from_ast(&to_expr_ast(o, opt)) }
fn name(i: u32) -> char { match i { 26 => '\'', 27 => '_', i => (b'a' + i as u8) as char } }
/// Query text of an expression tree. `term`: the grammar wants a single term here.
pub fn text(o: &O, term: bool, s: &mut String) {
    match o {
        O::C(LETTERS) => s.push('.'),
        O::C(0) => s.push_str("[^a-z]"),
        O::C(m) => {
            let many = m.count_ones() > 1;
            if many { s.push('[') }
            for i in 0..28 { if m >> i & 1 == 1 { s.push(name(i)) } }
            if many { s.push(']') }
        }
        O::Seq(v) => {
            if term && v.len() != 1 { s.push('(') }
            for x in v { text(x, term && v.len() == 1, s) }
            if term && v.len() != 1 { s.push(')') }
        }
        O::Alt(v) => {
            s.push('(');
            for (i, x) in v.iter().enumerate() { if i > 0 { s.push('|') } text(x, false, s) }
            s.push(')');
        }
        O::Sub(v) => { s.push('('); for x in v { text(x, true, s) } s.push_str(":^)"); }
        O::Rep(t, min, max) => {
            if term { s.push('(') }
            text(t, true, s);
            match (min, max) {
                (0, Some(1)) => s.push('?'),
                (0, None) => s.push('*'),
                (1, None) => s.push('+'),
                (0, Some(n)) => s.push_str(&format!("{{,{}}}", n)),
                (n, None) => s.push_str(&format!("{{{},}}", n)),
                (a, Some(b)) if a == b => s.push_str(&format!("{{{}}}", a)),
                (a, Some(b)) => s.push_str(&format!("{{{},{}}}", a, b)),
            }
            if term { s.push(')') }
        }
        O::Ana(k, n, b) => {
            s.push('<');
            for x in b { s.push(name(*x as u32)) }
            match k { 0 => {} 1 => s.push('+'), 2 => s.push('-'), 3 => s.push_str(&format!("+{}", n)), _ => s.push_str(&format!("-{}", n)) }
            s.push('>');
        }
    }
}
pub fn line(o: &O, opt: Opt) -> String {
    let mut s = String::new();
    text(o, false, &mut s);
    if opt.words { s.push_str(" !_") }
    if opt.punct { s.push_str(" !'") }
    if opt.fuzz > 0 { s.push_str(&format!(" !{}", opt.fuzz)) }
    s
}
pub fn parse(s: &str, id: u64) -> QueryAst {
    sym::note(|| format!("query {}", s));
    match QueryAst::new_from_str(s) { Ok(q) => q, Err(_) => sym::fail(id) }
}

#[derive(Default)]
pub struct Out { pub hits: Vec<Vec<u32>>, pub completes: u32, pub logs: u32, pub timeouts: u32, pub steps: u32 }
/// Runs a query to its end through the iterator interface.
pub fn collect(q: &mut QueryEvaluator, cap: u32, id: u64) -> Out {
    let mut o = Out::default();
    let _ = &o;
    while let Some(r) = q.next() {
        o.steps += 1;
        if o.steps > cap { sym::fail(id) }
        match r {
            QueryResponse::Match(p) => o.hits.push(p.iter().map(|w| w.score).collect()),
            QueryResponse::Complete(_) => o.completes += 1,
            QueryResponse::Logs(_) => o.logs += 1,
            QueryResponse::Timeout => o.timeouts += 1,
        }
    }
    o
}
pub fn observe_out(o: &Out) {
    sym::observe(o.hits.len() as u64);
    sym::note(|| format!("results {:?}", o.hits));
    for h in &o.hits { let mut v = 1u64; for x in h { v = v.wrapping_mul(31).wrapping_add(*x as u64) } sym::observe(v) }
    sym::observe(o.completes as u64);
}

// ---- structure generator: one path per structure
pub struct G { pub classes: &'static [u32], pub reps: &'static [(usize, Option<usize>)], pub subs: bool, pub empty: bool }
pub const A: u32 = 1; pub const B: u32 = 2;
pub const CL3: &[u32] = &[A, B, LETTERS];
pub const CL4: &[u32] = &[A, B, A | B, LETTERS];
pub const CLX: &[u32] = &[A, LETTERS, 0, WEND, PUNCT, ALL];
pub const REPS: &[(usize, Option<usize>)] = &[(0, Some(1)), (0, None), (1, None), (2, Some(2)), (0, Some(2)), (1, Some(2)), (2, None), (0, Some(0)), (1, Some(1)), (1, Some(3))];
pub const REPS5: &[(usize, Option<usize>)] = &[(0, Some(1)), (0, None), (1, None), (1, Some(2)), (0, Some(2))];
pub fn pick<T: Copy>(v: &[T]) -> T { v[sym::choose(v.len() as u8) as usize] }

impl G {
    pub fn class(&self) -> O { O::C(pick(self.classes)) }
    pub fn node(&self, d: usize, kind: u8, l: &dyn Fn() -> O, r: &dyn Fn() -> O) -> O {
        let _ = d;
        match kind {
            0 => O::Seq(vec![l(), r()]),
            1 => O::Alt(vec![l(), r()]),
            2 => O::Sub(vec![l(), r()]),
            3 => { let (a, b) = pick(self.reps); rep(l(), a, b) }
            _ => O::Seq(vec![]),
        }
    }
    fn kinds(&self) -> &'static [u8] {
        match (self.subs, self.empty) { (true, true) => &[9, 0, 1, 2, 3, 4], (true, false) => &[9, 0, 1, 2, 3], (false, true) => &[9, 0, 1, 3, 4], _ => &[9, 0, 1, 3] }
    }
    /// Any tree of depth at most `d`; with `thin`, one of two children is a leaf.
    pub fn any(&self, d: usize, thin: bool) -> O {
        if d == 0 { return self.class() }
        let k = pick(self.kinds());
        if k == 9 { return self.class() }
        self.of_kind(k, d, thin)
    }
    pub fn of_kind(&self, k: u8, d: usize, thin: bool) -> O {
        if k == 3 || k == 4 { return self.node(d, k, &|| self.any(d - 1, thin), &|| O::Seq(vec![])) }
        if thin && d > 1 {
            if sym::choose(2) == 0 { self.node(d, k, &|| self.any(d - 1, thin), &|| self.class()) }
            else { self.node(d, k, &|| self.class(), &|| self.any(d - 1, thin)) }
        } else { self.node(d, k, &|| self.any(d - 1, thin), &|| self.any(d - 1, thin)) }
    }
}
