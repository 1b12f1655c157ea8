//! Reference model: an expression tree with its own character masks, and a
//! branch-free matcher over (symbolic) words that shares no code with noodle.
pub const LETTERS: u32 = (1 << 26) - 1;
pub const PUNCT: u32 = 1 << 26;
pub const WEND: u32 = 1 << 27;
pub const ALL: u32 = (1 << 28) - 1;
pub const M: usize = 72;
pub const K: usize = 6;

#[derive(Clone)]
pub enum O {
    C(u32),
    Seq(Vec<O>),
    Alt(Vec<O>),
    Sub(Vec<O>),
    Rep(Box<O>, usize, Option<usize>),
    /// kind (0 std, 1 super, 2 sub, 3 transadd, 4 transdelete), N, bank (letters)
    Ana(u8, usize, Vec<u8>),
}
pub fn rep(o: O, min: usize, max: Option<usize>) -> O { O::Rep(Box::new(o), min, max) }

#[derive(Clone, Copy)]
pub struct Opt { pub words: bool, pub punct: bool, pub fuzz: usize }
impl Opt { pub const fn new() -> Opt { Opt { words: false, punct: false, fuzz: 0 } } }

impl O {
    pub fn mask(&self) -> u32 {
        match self {
            O::C(m) => *m,
            O::Seq(v) | O::Alt(v) | O::Sub(v) => v.iter().fold(0, |a, o| a | o.mask()),
            O::Rep(t, _, _) => t.mask(),
            O::Ana(..) => 0,
        }
    }
    pub fn has_sub(&self) -> bool {
        match self {
            O::Sub(_) => true,
            O::Seq(v) | O::Alt(v) => v.iter().any(|o| o.has_sub()),
            O::Rep(t, _, _) => t.has_sub(),
            _ => false,
        }
    }
    /// Options as documented: `_` or `'` anywhere turns on explicit handling.
    pub fn auto(&self, mut o: Opt) -> Opt {
        let m = self.mask();
        if m & WEND != 0 { o.words = true }
        if m & PUNCT != 0 { o.punct = true }
        o
    }
}

pub type S = [[u8; M]; K];
pub struct W<'a> { pub c: &'a [u8], skip: [u8; M], k: usize, empty_sub: bool }

#[inline(always)]
pub fn has(m: u32, c: u8) -> u8 { (m.wrapping_shr(c as u32) & 1) as u8 }

impl<'a> W<'a> {
    pub fn new(c: &'a [u8], o: Opt, empty_sub: bool) -> W<'a> {
        let mut skip = [0; M];
        let mut m = 0;
        if !o.words { m |= WEND }
        if !o.punct { m |= PUNCT }
        for i in 0..c.len() { skip[i] = has(m, c[i]) }
        W { c, skip, k: o.fuzz, empty_sub }
    }
    fn close(&self, s: &mut S) {
        let n = self.c.len();
        for f in 0..=self.k {
            for i in 0..n {
                let v = s[f][i];
                s[f][i + 1] |= v & self.skip[i];
                if f < self.k { s[f + 1][i + 1] |= v }
            }
        }
    }
    fn class(&self, m: u32, s: &S) -> S {
        let n = self.c.len();
        let mut t = [[0; M]; K];
        for f in 0..=self.k {
            for i in 0..n {
                let live = s[f][i] & (1 ^ self.skip[i]);
                t[f][i + 1] |= live & has(m, self.c[i]);
                if f < self.k && m & LETTERS != 0 { t[f + 1][i + 1] |= live }
            }
            if f < self.k && m & LETTERS != 0 { for i in 0..=n { t[f + 1][i] |= s[f][i] } }
        }
        self.close(&mut t);
        t
    }
    fn or(&self, a: &mut S, b: &S) { for f in 0..=self.k { for i in 0..=self.c.len() { a[f][i] |= b[f][i] } } }
    fn is_zero(&self, a: &S) -> bool { for f in 0..=self.k { for i in 0..=self.c.len() { if crate::sym::const_nonzero(a[f][i]) { return false } } } true }
    pub fn go(&self, o: &O, s: &S) -> S {
        match o {
            O::C(m) => self.class(*m, s),
            O::Seq(v) => { let mut t = *s; for x in v { t = self.go(x, &t) } t }
            O::Alt(v) => { let mut t = [[0; M]; K]; for x in v { let r = self.go(x, s); self.or(&mut t, &r) } t }
            O::Sub(v) => {
                let mut t = if self.empty_sub && v.len() > 1 { *s } else { [[0; M]; K] };
                for i in 0..v.len() {
                    let mut r = *s;
                    for x in &v[i..] { r = self.go(x, &r); self.or(&mut t, &r) }
                }
                t
            }
            O::Rep(x, min, max) => {
                let mut t = *s;
                for _ in 0..*min { t = self.go(x, &t); if self.is_zero(&t) { return t } }
                let extra = match max { Some(m) => (*m - *min).min(self.c.len() + self.k + 1), None => self.c.len() + self.k + 1 };
                let mut r = t;
                for _ in 0..extra { r = self.go(x, &r); if self.is_zero(&r) { break } self.or(&mut t, &r) }
                t
            }
            O::Ana(..) => panic!("not a regular node"),
        }
    }
    pub fn accepts(&self, o: &O, opt: Opt) -> u8 {
        let mut s = [[0; M]; K];
        s[0][0] = 1;
        self.close(&mut s);
        let mut t = self.go(o, &s);
        if opt.words {
            // trailing word boundaries are absorbed
            let n = self.c.len();
            for f in 0..=self.k {
                for i in 0..n {
                    let v = t[f][i];
                    t[f][i + 1] |= v & (has(WEND, self.c[i]) | self.skip[i]);
                    if f < self.k { t[f + 1][i + 1] |= v }
                }
            }
        }
        let mut r = 0;
        for f in 0..=self.k { r |= t[f][self.c.len()] }
        r
    }
}
/// (must match, may match): they differ only in whether the empty run of a
/// substring group with several terms counts.
pub fn accepts(o: &O, opt: Opt, c: &[u8]) -> (u8, u8) {
    if let O::Ana(k, n, bank) = o { let r = anagram(*k, *n, bank, opt, c); return (r, r) }
    let a = W::new(c, opt, false).accepts(o, opt);
    let b = if o.has_sub() { W::new(c, opt, true).accepts(o, opt) } else { a };
    (a, b)
}
/// Whole-word anagram constraint over the characters that are not skipped.
pub fn anagram(kind: u8, n: usize, bank: &[u8], _opt: Opt, c: &[u8]) -> u8 {
    let mut ok = 1u8;
    let mut len = 0u8;
    let mut inbank = 0u8;
    for x in c { len += has(LETTERS, *x) }
    let mut seen = 0u32;
    for b in bank {
        if seen >> b & 1 == 1 { continue }
        seen |= 1 << b;
        let want = bank.iter().filter(|y| *y == b).count() as u8;
        let mut got = 0u8;
        for x in c { got += has(1 << b, *x) }
        inbank += got;
        ok &= match kind { 0 => (got == want) as u8, 1 | 3 => (got >= want) as u8, _ => (got <= want) as u8 };
    }
    let total = bank.len() as u8;
    ok & match kind {
        0 => (len == total) as u8 & (inbank == len) as u8,
        1 => 1,
        2 => (inbank == len) as u8,
        3 => (len == total + n as u8) as u8,
        _ => (inbank == len) as u8 & (len == total.saturating_sub(n as u8)) as u8,
    }
}
