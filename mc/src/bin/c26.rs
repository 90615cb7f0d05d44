//! Comparison and hashing, for every pair of values of one container.
use indexing::proof::Provable;
use indexing::{scope, Container, Index, NonEmpty, Range, Unknown};
use mc::*;
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::{Hash, Hasher};

#[derive(Default, PartialEq, Debug)]
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, b: &[u8]) { self.0.push(b.len() as u8); self.0.extend_from_slice(b); }
}
fn rec<T: Hash>(t: T) -> Rec { let mut r = Rec::default(); t.hash(&mut r); r }
fn def<T: Hash>(t: T) -> u64 { let mut r = std::collections::hash_map::DefaultHasher::new(); t.hash(&mut r); r.finish() }

/// Operators between two values that compare like `a` and `b`.
fn pair<X, Y, K: Ord + std::fmt::Debug>(ctx: &mut Ctx, what: &str, x: X, y: Y, a: K, b: K)
where X: PartialOrd<Y> + PartialEq<Y> {
    let w = a.cmp(&b);
    ctx.case(|| format!("{} {:?} and {:?}", what, a, b));
    ctx.transitions += 7;
    let got = (x == y, x != y, x < y, x <= y, x > y, x >= y, x.partial_cmp(&y));
    let want = (w == Ordering::Equal, w != Ordering::Equal, w == Ordering::Less, w != Ordering::Greater, w == Ordering::Greater, w != Ordering::Less, Some(w));
    if got != want { fail(format!("{} {:?} and {:?}: (==, !=, <, <=, >, >=, partial_cmp) is {:?}", what, a, b, got)); }
    ctx.obs(&got);
    ctx.nontrivial += 1;
}
/// And with the full order.
fn full<X: Ord + Copy + Hash, K: Ord + Copy + std::fmt::Debug>(ctx: &mut Ctx, what: &str, x: X, y: X, a: K, b: K, key: fn(X) -> K) {
    pair(ctx, what, x, y, a, b);
    let w = a.cmp(&b);
    let d = |f: &str| format!("{} {:?} and {:?}: {} is wrong", what, a, b, f);
    if x.cmp(&y) != w { fail(d("cmp")); }
    if key(x.max(y)) != a.max(b) { fail(d("max")); }
    if key(x.min(y)) != a.min(b) { fail(d("min")); }
    if w == Ordering::Equal && (rec(x) != rec(y) || def(x) != def(y) || rec(&x) != rec(&y)) { fail(d("hash")); }
    ctx.transitions += 4;
}
fn triple<X: Ord + Copy, K: Ord + Copy + std::fmt::Debug>(ctx: &mut Ctx, what: &str, x: (X, K), y: (X, K), z: (X, K), key: fn(X) -> K) {
    if y.1 <= z.1 {
        ctx.transitions += 1;
        if key(x.0.clamp(y.0, z.0)) != x.1.clamp(y.1, z.1) { fail(format!("{} {:?}.clamp({:?}, {:?}) is wrong", what, x.1, y.1, z.1)); }
    }
}
/// Maps and sets with these keys behave like ones with the positions as keys.
fn maps<X: Ord + Copy + Hash, K: Ord + Copy + Hash + std::fmt::Debug>(ctx: &mut Ctx, what: &str, v: &[(X, K)]) {
    ctx.case(|| format!("{}: sorting, maps and sets of {} values", what, v.len()));
    let mut s: Vec<_> = v.iter().rev().copied().collect();
    s.sort_by(|a, b| a.0.cmp(&b.0));
    if !s.windows(2).all(|w| w[0].1 <= w[1].1) { fail(format!("{}: sorting is wrong", what)); }
    let n: HashSet<K> = v.iter().map(|x| x.1).collect();
    if v.iter().map(|x| x.0).collect::<HashSet<_>>().len() != n.len() || v.iter().map(|x| x.0).collect::<BTreeSet<_>>().len() != n.len() { fail(format!("{}: a set has the wrong number of values", what)); }
    let h: HashMap<X, K> = v.iter().copied().collect();
    let b: BTreeMap<X, K> = v.iter().copied().collect();
    for x in v { if h.get(&x.0) != Some(&x.1) || b.get(&x.0) != Some(&x.1) { fail(format!("{}: a map does not find {:?}", what, x.1)); } }
    ctx.states += 1;
    ctx.transitions += 6;
}

fn indices<'id, A: indexing::container_traits::Trustworthy, M>(c: &Container<'id, A, M>, pts: &[usize]) -> (Vec<(Index<'id>, usize)>, Vec<(Index<'id, Unknown>, usize)>) {
    let n = c.len();
    let ne: Vec<_> = pts.iter().filter(|&&i| i < n).map(|&i| (c.vet(i).unwrap_or_else(|_| fail(format!("vet({}) refused", i))), i)).collect();
    let mut uk: Vec<_> = ne.iter().map(|x| (x.0.no_proof(), x.1)).collect();
    let r = c.range();
    uk.push((c.split_at(r.first()).1.past_the_end(), n));
    (ne, uk)
}
fn ranges<'id, A: indexing::container_traits::Trustworthy, M>(c: &Container<'id, A, M>, pts: &[usize]) -> (Vec<(Range<'id, NonEmpty>, (usize, usize))>, Vec<(Range<'id>, (usize, usize))>) {
    let (mut ne, mut uk) = (vec![], vec![]);
    for &a in pts { for &b in pts {
        if a > b { continue; }
        let r = match c.vet_range(a..b) { Ok(r) => r, Err(_) => fail(format!("vet_range({}..{}) refused", a, b)) };
        uk.push((r, (a, b)));
        if a < b { ne.push((r.nonempty().unwrap_or_else(|_| fail("nonempty refused")), (a, b))); }
    } }
    (ne, uk)
}

fn check<'id, A: indexing::container_traits::Trustworthy, M, B: indexing::container_traits::Trustworthy, N>(ctx: &mut Ctx, c: &Container<'id, A, M>, e: &Container<'id, B, N>, pts: &[usize], triples: bool) {
    let (ne, uk) = indices(c, pts);
    let (ne2, uk2) = indices(e, pts);
    for x in &ne {
        for y in &ne2 { full(ctx, "indices", x.0, y.0, x.1, y.1, |i| i.integer()); }
        for y in &uk2 { pair(ctx, "marked and unmarked index", x.0, y.0, x.1, y.1); pair(ctx, "unmarked and marked index", y.0, x.0, y.1, x.1);
            if x.1 == y.1 && (rec(x.0) != rec(y.0) || def(x.0) != def(y.0)) { fail(format!("index {}: hash depends on the marking", x.1)); } }
    }
    for x in &uk { for y in &uk2 { full(ctx, "unmarked indices", x.0, y.0, x.1, y.1, |i| i.integer()); } }
    let (nr, ur) = ranges(c, pts);
    let (nr2, ur2) = ranges(e, pts);
    for x in &nr {
        for y in &nr2 { full(ctx, "ranges", x.0, y.0, x.1, y.1, |r| (r.start(), r.end())); }
        for y in &ur2 { pair(ctx, "marked and unmarked range", x.0, y.0, x.1, y.1); pair(ctx, "unmarked and marked range", y.0, x.0, y.1, x.1);
            if x.1 == y.1 && (rec(x.0) != rec(y.0) || def(x.0) != def(y.0)) { fail(format!("range {:?}: hash depends on the marking", x.1)); } }
    }
    for x in &ur { for y in &ur2 { full(ctx, "unmarked ranges", x.0, y.0, x.1, y.1, |r| (r.start(), r.end())); } }
    maps(ctx, "indices", &ne);
    maps(ctx, "unmarked indices", &uk);
    maps(ctx, "ranges", &nr);
    maps(ctx, "unmarked ranges", &ur);
    if triples {
        for x in &ne { for y in &ne { for z in &ne { triple(ctx, "index", *x, *y, *z, |i| i.integer()); } } }
        for x in &uk { for y in &uk { for z in &uk { triple(ctx, "unmarked index", *x, *y, *z, |i| i.integer()); } } }
        for x in &nr { for y in &nr { for z in &nr { triple(ctx, "range", *x, *y, *z, |r| (r.start(), r.end())); } } }
    }
    ctx.states += (ne.len() + uk.len() + nr.len() + ur.len()) as u64;
}

#[cfg(feature = "ptr")]
fn pointers<T: elem::Elem>(ctx: &mut Ctx, n: usize) {
    let g = elem::Guarded::<T>::new(n);
    among::<T>(ctx, g.mid(), &(0..=n).collect::<Vec<_>>());
    for b in huge::BOUNDARIES {
        for k in 0..=n { huge::across::<T>(b, n, k, |s| among::<T>(ctx, s, &(0..=n).collect::<Vec<_>>())); }
    }
}
/// Pointers to, and ranges between, the positions `pts` (ascending, ending with the length).
#[cfg(feature = "ptr")]
fn among<T: elem::Elem>(ctx: &mut Ctx, s: &[T], pts: &[usize]) {
    use indexing::pointer::{PRange, PSlice};
    let len = s.len();
    scope(s, |c| {
        let n = pts.len() - 1;
        let ne: Vec<_> = (0..n).map(|i| { let mut r = c.pointer_range().into_iter(); r.nth(pts[i]).unwrap_or_else(|| fail(format!("no pointer {} of {}", pts[i], len))) }).collect();
        let mut uk: Vec<_> = ne.iter().map(|p| p.no_proof()).collect();
        uk.push(c.pointer_range().past_the_end());
        let e = |ctx: &mut Ctx, w: &str, got: (bool, bool), want: bool, a: (usize, usize), b: (usize, usize)| {
            ctx.case(|| format!("{} of {} {}: {:?} and {:?}", w, len, T::NAME, a, b));
            ctx.transitions += 2;
            ctx.nontrivial += 1;
            if got != (want, !want) { fail(format!("{} of {} {}: {:?} and {:?}: (==, !=) is {:?}", w, len, T::NAME, a, b, got)); }
            ctx.obs(&got);
        };
        for i in 0..n { for j in 0..n { e(ctx, "pointers", (ne[i] == ne[j], ne[i] != ne[j]), i == j, (i, i), (j, j)); } }
        for i in 0..=n { for j in 0..=n { e(ctx, "unmarked pointers", (uk[i] == uk[j], uk[i] != uk[j]), i == j, (i, i), (j, j)); } }
        if n > 0 { for i in 0..n { let a = ne[i].after(); for j in 0..=n { e(ctx, "unmarked pointers", (a == uk[j], uk[j] != a), pts[i] + 1 == pts[j], (i + 1, 0), (j, j)); } } }
        let mut rs: Vec<(PRange<T>, (usize, usize))> = vec![];
        for a in 0..=n { for b in a..=n {
            let r = if a < b { c.nonempty_range(uk[a], uk[b]).unwrap_or_else(|_| fail(format!("nonempty_range({}, {}) of {} refused", pts[a], pts[b], len))).no_proof() }
                else { c.scan_pointer_range(c.pointer_range_of(uk[a]..), |_| false).0 };
            rs.push((r, (pts[a], pts[b])));
        } }
        for &(x, a) in &rs { for &(y, b) in &rs {
            let (sx, sy) = (PSlice::from(x), PSlice::from(y));
            e(ctx, "pointer ranges", (x == y, x != y), a == b, a, b);
            e(ctx, "pointer slices", (sx == sy, sx != sy), a == b, a, b);
            if let Ok(x) = x.nonempty() {
                e(ctx, "marked and unmarked pointer range", (x == y, x != y), a == b, a, b);
                e(ctx, "unmarked and marked pointer range", (y == x, y != x), a == b, a, b);
                if let Ok(y) = y.nonempty() { e(ctx, "marked pointer ranges", (x == y, x != y), a == b, a, b); }
            }
            if let Ok(x) = sx.nonempty() {
                e(ctx, "marked and unmarked pointer slice", (x == sy, x != sy), a == b, a, b);
                e(ctx, "unmarked and marked pointer slice", (sy == x, sy != x), a == b, a, b);
                if let Ok(y) = sy.nonempty() { e(ctx, "marked pointer slices", (x == y, x != y), a == b, a, b); }
            }
        } }
        ctx.states += rs.len() as u64;
    })
}

fn units(t: Tier) -> Vec<Unit> {
    let mut us = vec![];
    for n in 0..=t.pick(6, 16, 34) {
        us.push(unit(format!("every pair, n={}", n), move |ctx| {
            let d = vec![0u8; n];
            let mut f = vec![0u16; n];
            let pts: Vec<usize> = (0..=n).collect();
            scope(&d[..], |c| {
                check(ctx, &c, &c, &pts, n <= t.pick(3, 6, 8));
                let tw = c.make_twin(&mut f[..]).unwrap_or_else(|_| fail("twin refused"));
                if n <= 8 { check(ctx, &c, &tw, &pts, false); check(ctx, &tw, &c.clone(), &pts, false); }
            });
        }));
        #[cfg(feature = "ptr")]
        if n <= t.pick(4, 9, 14) {
            us.push(unit(format!("pointers, n={}", n), move |ctx| {
                pointers::<u8>(ctx, n);
                pointers::<u16>(ctx, n);
                pointers::<elem::B3>(ctx, n);
                pointers::<u64>(ctx, n);
                pointers::<elem::Big>(ctx, n);
                pointers::<elem::Heap>(ctx, n);
                pointers::<elem::Al64>(ctx, n);
                pointers::<elem::Mid>(ctx, n);
            }));
        }
    }
    #[cfg(feature = "ptr")]
    for n in t.pick(vec![17], vec![33, 129, 300, 1000, 65537], vec![33, 129, 300, 1000, 65537, 1 << 20]) {
        us.push(unit(format!("pointers, n={}", n), move |ctx| {
            fn go<T: elem::Elem>(ctx: &mut Ctx, n: usize) { among::<T>(ctx, elem::Guarded::<T>::new(n).mid(), &gen::points(n)); }
            go::<u8>(ctx, n);
            go::<elem::B3>(ctx, n);
            go::<u64>(ctx, n);
            go::<elem::Al64>(ctx, n);
        }));
    }
    for n in closures::big_lengths(t) {
        us.push(unit(format!("boundary positions, n={}", n), move |ctx| {
            let v: &[()] = unsafe { std::slice::from_raw_parts(std::ptr::NonNull::dangling().as_ptr(), n) };
            let mut pts = gen::extremes(n);
            pts.retain(|&x| x <= n);
            pts.extend(gen::points(n));
            pts.sort();
            pts.dedup();
            scope(v, |c| check(ctx, &c, &c, &pts, false));
        }));
    }
    us
}

fn main() {
    harness_main(units)
}
