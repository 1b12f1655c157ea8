//! C16: the bit sets of /repo/noodle/src/bitset.rs against tables of booleans.
use crate::bitset::*;
use crate::sym;

/// A set as one byte (0 or 1) per element.
#[derive(Clone, PartialEq)]
struct M(Vec<u8>);
impl M {
    fn new(n: usize) -> M { M(vec![0; n]) }
    fn insert(&mut self, i: usize) { for j in 0..self.0.len() { self.0[j] |= (i == j) as u8 } }
    fn remove(&mut self, i: usize) { for j in 0..self.0.len() { self.0[j] &= (i != j) as u8 } }
    fn union(&mut self, o: &M) { for j in 0..self.0.len() { self.0[j] |= o.0[j] } }
    fn diff(&mut self, o: &M) { for j in 0..self.0.len() { self.0[j] &= o.0[j] ^ 1 } }
    fn inter(&mut self, o: &M) { for j in 0..self.0.len() { self.0[j] &= o.0[j] } }
    fn clear(&mut self) { for x in self.0.iter_mut() { *x = 0 } }
    fn is_empty(&self) -> u8 { let mut r = 0; for x in &self.0 { r |= *x } r ^ 1 }
    fn subset(&self, o: &M) -> u8 { let mut r = 1; for j in 0..self.0.len() { r &= (self.0[j] & (o.0[j] ^ 1)) ^ 1 } r }
    fn same(&self, o: &M) -> u8 { let mut r = 1; for j in 0..self.0.len() { r &= (self.0[j] ^ o.0[j]) ^ 1 } r }
}
fn idx(n: usize) -> usize { sym::range(0, (n - 1) as u8) as usize }
fn eq(a: bool, b: u8, id: u64) { sym::check(a as u8 == b, id) }
/// Everything that can be asked of one set, without walking through it.
fn ask(s: BitSetRef1D<'_>, m: &M, n: usize) {
    let mut bad = 0;
    for j in 0..n {
        bad |= s.contains(j) as u8 ^ m.0[j];
        if j % 1 == 0 || j + 1 == n { sym::check(bad == 0, 1601); bad = 0 }
    }
    eq(s.is_empty(), m.is_empty(), 1602);
}
/// Walking through the elements: in order, each once, nothing else.
fn walk(s: BitSetRef1D<'_>, m: &M, n: usize) {
    let mut next = 0;
    let mut count = 0;
    let mut rest = m.clone();
    for i in s.ones() {
        count += 1;
        if count > n { sym::fail(1603) }
        sym::check(i >= next && i < n, 1604);
        next = i + 1;
        // an element that is left
        let mut was = 0;
        for j in 0..n { let h = (i == j) as u8; was |= h & rest.0[j]; rest.0[j] &= h ^ 1 }
        sym::check(was == 1, 1606);
    }
    eq(true, rest.is_empty(), 1605);
}
/// One operation on x (and sometimes y).
fn op1(k: u8, x: &mut BitSetRefMut1D<'_>, mx: &mut M, y: BitSetRef1D<'_>, my: &M, n: usize) {
    match k {
        0 => { let i = idx(n); x.insert(i); mx.insert(i) }
        1 => { let i = idx(n); x.remove(i); mx.remove(i) }
        2 => { x.union_with(y); mx.union(my) }
        3 => { x.difference_with(y); mx.diff(my) }
        4 => { x.intersect_with(y); mx.inter(my) }
        5 => { x.copy_from(y); *mx = my.clone() }
        6 => { x.clear(); mx.clear() }
        _ => {
            let i = idx(n);
            let mut want = 0; for j in 0..n { want |= mx.0[j] & (i == j) as u8 }
            eq(x.contains(i), want, 1607);
            eq(x.is_empty(), mx.is_empty(), 1602);
            eq(x.is_subset(y), mx.subset(my), 1608);
        }
    }
}
fn two(n: usize, k: usize) -> (BitSet1D, M, BitSet1D, M) {
    let (mut x, mut y) = (BitSet1D::new((), n), BitSet1D::new((), n));
    let (mut mx, mut my) = (M::new(n), M::new(n));
    for s in 0..k { let i = idx(n); if s % 2 == 0 { x.borrow_mut().insert(i); mx.insert(i) } else { y.borrow_mut().insert(i); my.insert(i) } }
    (x, mx, y, my)
}
/// a: size, b: elements at the beginning, c: operations, d: 1 = walk at the end
pub fn one_d(n: u64, start: u64, ops: u64, w: u64) {
    let n = n as usize;
    let (mut x, mut mx, mut y, mut my) = two(n, start as usize);
    for _ in 0..ops {
        let k = sym::choose(9);
        sym::note(|| format!("operation {}", k));
        if k == 8 { std::mem::swap(&mut x, &mut y); std::mem::swap(&mut mx, &mut my) }
        else { op1(k, &mut x.borrow_mut(), &mut mx, y.borrow(), &my, n) }
    }
    sym::cover(1);
    ask(x.borrow(), &mx, n);
    ask(y.slice(()), &my, n);
    eq(x == y, mx.same(&my), 1609);
    eq(x.borrow() == y.borrow(), mx.same(&my), 1609);
    eq(x.borrow().is_subset(&y.borrow()), mx.subset(&my), 1608);
    eq(x.borrow_mut().is_subset(y.borrow()), mx.subset(&my), 1608);
    ask(x.borrow_mut().reborrow(), &mx, n);
    if w == 1 {
        walk(x.borrow(), &mx, n);
        let m = x.borrow_mut();
        let v: Vec<usize> = m.ones().collect();
        let u: Vec<usize> = x.borrow().ones().collect();
        if v != u { sym::fail(1610) }
        sym::observe(v.len() as u64);
    }
}
/// Copies are independent; sizes can be changed when the elements fit.
pub fn copies(n: u64, start: u64, to: u64, _d: u64) {
    let n = n as usize;
    let to = to as usize;
    let (x, mx, y, my) = two(n, start as usize);
    sym::cover(1);
    let mut c = x.borrow().to_bitset();
    eq(c == x, 1, 1611);
    let mut d = x.clone();
    let i = idx(n);
    let mut mc = mx.clone();
    c.borrow_mut().insert(i); mc.insert(i);
    let mut md = mx.clone();
    d.slice_mut(()).remove(i); md.remove(i);
    ask(x.borrow(), &mx, n); ask(c.borrow(), &mc, n); ask(d.borrow(), &md, n); ask(y.borrow(), &my, n);
    // as many as fit
    let mut fits = 1; for j in to.min(n)..n { fits &= mx.0[j] ^ 1 }
    sym::assume(fits == 1);
    let r = x.borrow().resize(to);
    for j in 0..to { eq(r.borrow().contains(j), if j < n { mx.0[j] } else { 0 }, 1612) }
    let mut r = r;
    let i = idx(to);
    r.borrow_mut().insert(i);
    sym::check(r.borrow().contains(i), 1612);
    ask(x.borrow(), &mx, n);
}
/// Rows of a two-dimensional set. a: rows * 1000 + size, b: elements, c: operations, d: 1 = walk
pub fn two_d(rn: u64, start: u64, ops: u64, w: u64) {
    let (rows, n) = ((rn / 1000) as usize, (rn % 1000) as usize);
    let row = || sym::choose(rows as u8) as usize;
    let mut x = BitSet2D::new(rows, n);
    let mut y = BitSet2D::new(rows, n);
    let mut mx = vec![M::new(n); rows];
    let mut my = vec![M::new(n); rows];
    for s in 0..start { let (r, i) = (row(), idx(n)); if s % 2 == 0 { x.slice_mut(r).insert(i); mx[r].insert(i) } else { y.borrow_mut().slice_mut(r).insert(i); my[r].insert(i) } }
    for _ in 0..ops {
        let k = sym::choose(13);
        sym::note(|| format!("operation {}", k));
        match k {
            // one row, with a row of the other set
            0..=7 => { let (r, s) = (row(), row()); op1(k, &mut x.slice_mut(r), &mut mx[r], y.slice(s), &my[s], n) }
            // everything
            8 => { x.borrow_mut().union_with(y.borrow()); for r in 0..rows { mx[r].union(&my[r]) } }
            9 => { x.borrow_mut().difference_with(y.borrow()); for r in 0..rows { mx[r].diff(&my[r]) } }
            10 => { x.borrow_mut().copy_from(y.borrow()); mx = my.clone() }
            11 => { x.borrow_mut().clear(); for m in mx.iter_mut() { m.clear() } }
            _ => { std::mem::swap(&mut x, &mut y); std::mem::swap(&mut mx, &mut my) }
        }
    }
    sym::cover(1);
    let mut empty = 1; let mut same = 1; let mut sub = 1;
    for r in 0..rows {
        ask(x.slice(r), &mx[r], n); ask(y.borrow().slice(r), &my[r], n); ask(x.borrow_mut().slice(r), &mx[r], n);
        empty &= mx[r].is_empty(); same &= mx[r].same(&my[r]); sub &= mx[r].subset(&my[r]);
        if w == 1 { walk(x.slice(r), &mx[r], n) }
    }
    eq(x.borrow().is_empty(), empty, 1602);
    eq(x.borrow_mut().is_empty(), empty, 1602);
    eq(x == y, same, 1609);
    eq(x.borrow().is_subset(&y.borrow()), sub, 1608);
}
/// Keeping each element of a plane in its first row only. a: as below, start: elements of the plane
pub fn compact(prn: u64, start: u64, _: u64, w: u64) {
    let (planes, rows, n) = ((prn / 100000) as usize, (prn / 1000 % 100) as usize, (prn % 1000) as usize);
    let mut x = BitSet3D::new((planes, rows), n);
    let mut mx = vec![M::new(n); planes * rows];
    let p = sym::choose(planes as u8) as usize;
    for s in 0..start {
        let (r, i) = (sym::choose(rows as u8) as usize, idx(n));
        x.slice_mut((p, r)).insert(i); mx[p * rows + r].insert(i);
        // another plane has it in all rows
        if s == 0 { let q = (p + 1) % planes; if q != p { for r in 0..rows { x.slice_mut((q, r)).insert(i); mx[q * rows + r].insert(i) } } }
    }
    x.compact_distance_set(p);
    let mut seen = M::new(n);
    for r in 0..rows { let m = &mut mx[p * rows + r]; m.diff(&seen); seen.union(m) }
    sym::cover(1);
    for q in 0..planes { for r in 0..rows { ask(x.slice((q, r)), &mx[q * rows + r], n); if w == 1 { walk(x.slice((q, r)), &mx[q * rows + r], n) } } }
}
/// Slices of a three-dimensional set. a: planes * 100000 + rows * 1000 + size
pub fn three_d(prn: u64, start: u64, ops: u64, w: u64) {
    let (planes, rows, n) = ((prn / 100000) as usize, (prn / 1000 % 100) as usize, (prn % 1000) as usize);
    let plane = || sym::choose(planes as u8) as usize;
    let row = || sym::choose(rows as u8) as usize;
    let mut x = BitSet3D::new((planes, rows), n);
    let mut y = BitSet2D::new(rows, n);
    let mut mx = vec![M::new(n); planes * rows];
    let mut my = vec![M::new(n); rows];
    for s in 0..start {
        let (p, r, i) = (plane(), row(), idx(n));
        match s % 4 {
            0 => { x.slice_mut((p, r)).insert(i); mx[p * rows + r].insert(i) }
            1 => { y.slice_mut(r).insert(i); my[r].insert(i) }
            2 => { x.slice2d_mut(p).slice_mut(r).insert(i); mx[p * rows + r].insert(i) }
            _ => { x.borrow_mut().slice_mut(p).slice_mut(r).insert(i); mx[p * rows + r].insert(i) }
        }
    }
    for _ in 0..ops {
        let k = sym::choose(15);
        sym::note(|| format!("operation {}", k));
        match k {
            0..=7 => { let (p, r, s) = (plane(), row(), row()); op1(k, &mut x.slice_mut((p, r)), &mut mx[p * rows + r], y.slice(s), &my[s], n) }
            // a plane
            8 => { let p = plane(); x.slice2d_mut(p).union_with(y.borrow()); for r in 0..rows { mx[p * rows + r].union(&my[r]) } }
            9 => { let p = plane(); x.slice2d_mut(p).copy_from(y.borrow()); for r in 0..rows { mx[p * rows + r] = my[r].clone() } }
            10 => { let p = plane(); x.slice2d_mut(p).clear(); for r in 0..rows { mx[p * rows + r].clear() } }
            11 => { let p = plane(); x.borrow_mut().slice_mut(p).difference_with(y.borrow()); for r in 0..rows { mx[p * rows + r].diff(&my[r]) } }
            // the other way round
            12 => { let p = plane(); y.borrow_mut().union_with(x.slice2d(p)); for r in 0..rows { my[r].union(&mx[p * rows + r]) } }
            // each element only in its first row
            13 => { let p = plane(); x.compact_distance_set(p); let mut seen = M::new(n); for r in 0..rows { let m = &mut mx[p * rows + r]; m.diff(&seen); seen.union(m) } }
            _ => { x.borrow_mut().clear(); for m in mx.iter_mut() { m.clear() } }
        }
    }
    sym::cover(1);
    let mut empty = 1;
    for p in 0..planes {
        let mut pe = 1;
        for r in 0..rows {
            let m = &mx[p * rows + r];
            ask(x.slice((p, r)), m, n); ask(x.slice2d(p).slice(r), m, n); ask(x.borrow().slice(p).slice(r), m, n); ask(x.slice2d_mut(p).slice(r), m, n);
            if w == 1 { walk(x.slice((p, r)), m, n) }
            pe &= m.is_empty();
        }
        eq(x.slice2d(p).is_empty(), pe, 1602);
        empty &= pe;
    }
    for r in 0..rows { ask(y.slice(r), &my[r], n) }
    eq(x.borrow().is_empty(), empty, 1602);
    let c = x.clone();
    eq(c == x, 1, 1611);
}
