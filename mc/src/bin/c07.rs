//! Iterating ranges: every interleaving of front and back steps.
use indexing::{scope, Index, Range};
use mc::*;

fn zst(n: usize) -> &'static [()] {
    unsafe { std::slice::from_raw_parts(std::ptr::NonNull::dangling().as_ptr(), n) }
}

/// What is common to the two iterators.
trait It: DoubleEndedIterator + Clone {
    fn pos(i: Self::Item, base: usize) -> usize;
    fn rest(&self, base: usize) -> (usize, usize);
    fn exact_len(&self) -> Option<usize> { None }
}
impl<'id> It for indexing::indexing::RangeIter<'id> {
    fn pos(i: Index<'id>, _: usize) -> usize { i.integer() }
    fn rest(&self, _: usize) -> (usize, usize) {
        let r = self.into_range();
        (r.start(), r.end())
    }
}
#[cfg(feature = "ptr")]
impl<'id, T> It for indexing::pointer::PRangeIter<'id, T> {
    fn pos(i: indexing::pointer::PIndex<'id, T>, base: usize) -> usize { elem::off(base as *const T, i.ptr()).map_or(usize::MAX, |x| x as usize) }
    fn rest(&self, base: usize) -> (usize, usize) {
        let r = self.into_range();
        let o = |p: *const T| elem::off(base as *const T, p).map_or(usize::MAX, |x| x as usize);
        (o(r.first().ptr()), o(r.past_the_end().ptr()))
    }
    fn exact_len(&self) -> Option<usize> { Some(ExactSizeIterator::len(self)) }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op { Next, Back, Nth(usize), NthBack(usize) }

fn apply<I: It>(it: &mut I, op: Op, base: usize) -> Option<usize> {
    match op {
        Op::Next => it.next(),
        Op::Back => it.next_back(),
        Op::Nth(k) => it.nth(k),
        Op::NthBack(k) => it.nth_back(k),
    }
    .map(|i| I::pos(i, base))
}
fn model(s: &mut usize, e: &mut usize, op: Op) -> Option<usize> {
    let n = *e - *s;
    match op {
        Op::Next | Op::Nth(_) => {
            let k = if let Op::Nth(k) = op { k } else { 0 };
            if k >= n { *s = *e; None } else { *s += k + 1; Some(*s - 1) }
        }
        Op::Back | Op::NthBack(_) => {
            let k = if let Op::NthBack(k) = op { k } else { 0 };
            if k >= n { *e = *s; None } else { *e -= k + 1; Some(*e) }
        }
    }
}

struct W<'a> { ctx: &'a mut Ctx, what: &'static str, n: usize, base: usize, ops: Vec<Op>, full: bool }

impl W<'_> {
    fn desc(&self, r: (usize, usize), m: String) -> String {
        format!("{} over {}..{} of {} after {:?}: {}", self.what, r.0, r.1, self.n, self.ops, m)
    }
    /// The iterator must now have exactly s..e left; checked through everything that looks at the rest.
    fn check<I: It>(&mut self, it: &I, r0: (usize, usize), s: usize, e: usize) {
        let b = self.base;
        self.ctx.states += 1;
        let rest = it.rest(b);
        // an exhausted iterator's remaining part is empty, wherever it lies
        if !(rest == (s, e) || (s == e && rest.0 == rest.1 && rest.0 >= r0.0 && rest.1 <= r0.1)) {
            fail(self.desc(r0, format!("remaining part is {:?} instead of {:?}", rest, (s, e))));
        }
        let (lo, hi) = it.size_hint();
        if lo > e - s || hi.map_or(false, |h| h < e - s) {
            fail(self.desc(r0, format!("size_hint {:?} with {} left", (lo, hi), e - s)));
        }
        if let Some(l) = it.exact_len() {
            if l != e - s { fail(self.desc(r0, format!("len {} with {} left", l, e - s))); }
        }
        if self.full && e - s <= 64 {
            let want: Vec<usize> = (s..e).collect();
            let mut v = vec![];
            for i in it.clone() {
                v.push(I::pos(i, b));
                if v.len() > want.len() { break; }
            }
            if v != want { fail(self.desc(r0, format!("front to back gives {:?} instead of {:?}", v, want))); }
            v.clear();
            for i in it.clone().rev() {
                v.push(I::pos(i, b));
                if v.len() > want.len() { break; }
            }
            v.reverse();
            if v != want { fail(self.desc(r0, format!("back to front gives {:?} instead of {:?}", v, want))); }
            v.clear();
            it.clone().for_each(|i| v.push(I::pos(i, b)));
            if v != want { fail(self.desc(r0, format!("for_each gives {:?} instead of {:?}", v, want))); }
            v.clear();
            it.clone().rfold((), |_, i| v.push(I::pos(i, b)));
            v.reverse();
            if v != want { fail(self.desc(r0, format!("rfold gives {:?} instead of {:?}", v, want))); }
            if it.clone().count() != e - s { fail(self.desc(r0, format!("count is {} with {} left", it.clone().count(), e - s))); }
            if it.clone().last().map(|i| I::pos(i, b)) != want.last().copied() { fail(self.desc(r0, "last differs".into())); }
        }
    }
    /// Depth-first over all operation sequences.
    fn dfs<I: It>(&mut self, it: &I, r0: (usize, usize), s: usize, e: usize, depth: usize, alpha: &[Op]) {
        if depth == 0 {
            return;
        }
        for &op in alpha {
            self.ops.push(op);
            let (w, n) = (self.what, self.n);
            let ops = &self.ops;
            self.ctx.case(|| format!("{} over {}..{} of {}: {:?}", w, r0.0, r0.1, n, ops));
            self.ctx.transitions += 1;
            let mut j = it.clone();
            let (mut ms, mut me) = (s, e);
            let want = model(&mut ms, &mut me, op);
            let got = apply(&mut j, op, self.base);
            if got != want {
                fail(self.desc(r0, format!("last step gave {:?} instead of {:?}", got, want)));
            }
            if got.is_some() { self.ctx.nontrivial += 1; }
            self.ctx.obs(&(op, got, s, e));
            self.check(&j, r0, ms, me);
            // the original is unaffected
            if it.rest(self.base).1 - it.rest(self.base).0 != e - s {
                fail(self.desc(r0, "stepping a copy changed the original".into()));
            }
            // three more steps after exhaustion are enough: the model does not change any more
            let d = if s == e { depth.min(3) } else { depth };
            self.dfs(&j, r0, ms, me, d - 1, alpha);
            self.ops.pop();
        }
    }
}

fn start<'id, P: Tag>(ctx: &mut Ctx, r: Range<'id, P>, n: usize, depth: usize, alpha: &[Op], full: bool) {
    let it = r.into_iter();
    let mut w = W { ctx, what: if P::NE { "marked range" } else { "range" }, n, base: 0, ops: vec![], full };
    w.ctx.case(|| format!("iterator over {}..{} of {}", r.start(), r.end(), n));
    w.check(&it, (r.start(), r.end()), r.start(), r.end());
    w.dfs(&it, (r.start(), r.end()), r.start(), r.end(), depth, alpha);
}

#[cfg(feature = "ptr")]
fn pointers<T: elem::Elem>(us: &mut Vec<Unit>, t: Tier) {
    use elem::*;
    use indexing::pointer::PRange;
    fn go<'id, T: Elem, P: Tag>(ctx: &mut Ctx, r: PRange<'id, T, P>, se: (usize, usize), n: usize, base: usize, depth: usize, alpha: &[Op]) {
        let it = r.into_iter();
        let mut w = W { ctx, what: if P::NE { "marked pointer range" } else { "pointer range" }, n, base, ops: vec![], full: true };
        w.ctx.case(|| format!("iterator over {}..{} of {} x {}", se.0, se.1, n, T::NAME));
        w.check(&it, se, se.0, se.1);
        w.dfs(&it, se, se.0, se.1, depth, alpha);
    }
    us.push(unit(format!("pointers, long walks {}", T::NAME), move |ctx| {
        for n in t.pick(vec![], vec![64, 255, 256, 257, 1000, 65535, 65536, 65537], vec![64, 255, 256, 257, 1000, 65535, 65536, 65537, 1 << 20]) {
            let g = Guarded::<T>::new(n);
            let base = g.mid().as_ptr();
            scope(g.mid(), |c| for pattern in 0..4usize {
                ctx.case(|| format!("complete walk of all pointers of {} x {} in pattern {}", n, T::NAME, pattern));
                let (mut s, mut e) = (0, n);
                let mut it = c.pointer_range().into_iter();
                while s < e {
                    let front = match pattern { 0 => true, 1 => false, 2 => (s + n - e) % 2 == 0, _ => (s + n - e) % 5 < 2 };
                    let l = it.len();
                    ctx.ck(l == e - s, || format!("walk of {} x {}: len is {} with {} left", n, T::NAME, l, e - s));
                    let got = if front { it.next() } else { it.next_back() };
                    let want = if front { s += 1; s - 1 } else { e -= 1; e };
                    ctx.transitions += 1;
                    ctx.ck(got.map_or(false, |p| is_at(base, &c[p], want)), || format!("complete walk of {} x {} in pattern {}: not at {}", n, T::NAME, pattern, want));
                }
                ctx.states += 1;
                ctx.ck(it.next().is_none() && it.next_back().is_none() && it.next().is_none(), || format!("walk of {} x {}: more elements after the end", n, T::NAME));
            });
        }
    }));
    us.push(unit(format!("pointers {}", T::NAME), move |ctx| {
        for n in 0..=t.pick(3, 6, 8) {
            let g = Guarded::<T>::new(n);
            walk::<T>(ctx, g.mid());
            for b in huge::BOUNDARIES { if n > 0 { huge::across::<T>(b, n, (n + 1) / 2, |s| walk::<T>(ctx, s)); } }
        }
    }));
    fn walk<T: Elem>(ctx: &mut Ctx, s: &[T]) {
            let n = s.len();
            let base = s.as_ptr() as usize;
            scope(s, |c| {
                for s in 0..=n {
                    for e in s..=n {
                        let lim = c.vet_range(s..e).ok().unwrap();
                        // the pointer range s..e: split at pointers reached by iterating
                        let all: Vec<_> = c.pointer_range().into_iter().collect();
                        let from = |i: usize| if i < n { c.pointer_range_of(all[i]..) } else { c.pointer_range_of(c.pointer_range().past_the_end()..) };
                        let _ = lim;
                        let a = from(s);
                        // take e - s of the rest
                        let mut it = a.into_iter();
                        for _ in e..n { it.next_back(); }
                        let r = it.into_range();
                        go(ctx, r, (s, e), n, base, (e - s + 2).min(8), &[Op::Next, Op::Back]);
                        go(ctx, r, (s, e), n, base, 3, &[Op::Next, Op::Back, Op::Nth(0), Op::Nth(1), Op::Nth(2), Op::NthBack(0), Op::NthBack(1), Op::NthBack(2)]);
                        if let Ok(r) = r.nonempty() {
                            go(ctx, r, (s, e), n, base, (e - s + 2).min(6), &[Op::Next, Op::Back]);
                        }
                    }
                }
            });
    }
}

fn units(t: Tier) -> Vec<Unit> {
    let mut us = vec![];
    for n in 0..=t.pick(5, 10, 15) {
        us.push(unit(format!("interleavings n={}", n), move |ctx| {
            scope(zst(n), |c| {
                for s in 0..=n {
                    for e in s..=n {
                        let r = c.vet_range(s..e).unwrap_or_else(|_| fail("vet_range refused a valid range"));
                        start(ctx, r, n, e - s + 3, &[Op::Next, Op::Back], e - s <= 6);
                        if let Ok(r) = r.nonempty() {
                            start(ctx, r, n, (e - s + 3).min(8), &[Op::Next, Op::Back], false);
                        }
                    }
                }
            });
        }));
        us.push(unit(format!("skips n={}", n), move |ctx| {
            let alpha = [Op::Next, Op::Back, Op::Nth(0), Op::Nth(1), Op::Nth(2), Op::Nth(5), Op::Nth(usize::MAX), Op::NthBack(0), Op::NthBack(1), Op::NthBack(3), Op::NthBack(usize::MAX)];
            scope(zst(n), |c| {
                for s in 0..=n {
                    for e in s..=n {
                        let r = c.vet_range(s..e).unwrap_or_else(|_| fail("vet_range refused a valid range"));
                        start(ctx, r, n, t.pick(2, 3, 4), &alpha, true);
                    }
                }
            });
        }));
    }
    us.push(unit("boundary lengths", move |ctx| {
        let alpha = [Op::Next, Op::Back, Op::Nth(1), Op::NthBack(1)];
        for n in closures::big_lengths(t) {
            scope(zst(n), |c| {
                let mut ps = gen::points(n);
                ps.dedup();
                for &s in &ps {
                    for &e in &ps {
                        if let Ok(r) = c.vet_range(s..e) {
                            // nth walks element by element: only the stepping operations on long ranges
                            let al = if e - s < 1000 { &alpha[..] } else { &alpha[..2] };
                            start(ctx, r, n, t.pick(2, 4, 6), al, true);
                        }
                    }
                }
            });
        }
    }));
    // a complete walk of ranges around byte and word boundaries
    us.push(unit("long walks", move |ctx| {
        for n in [64, 255, 256, 257, 1000, 65535, 65536, 65537] {
            for pattern in 0..4usize {
                scope(zst(n), |c| {
                    ctx.case(|| format!("complete walk of 0..{} in pattern {}", n, pattern));
                    let (mut s, mut e) = (0, n);
                    let mut it = c.range().into_iter();
                    while s < e {
                        let front = match pattern { 0 => true, 1 => false, 2 => (s + n - e) % 2 == 0, _ => (s + n - e) % 5 < 2 };
                        let got = if front { it.next() } else { it.next_back() }.map(|i| i.integer());
                        let want = if front { s += 1; s - 1 } else { e -= 1; e };
                        ctx.transitions += 1;
                        ctx.ck(got == Some(want), || format!("complete walk of 0..{} in pattern {}: {:?} instead of {}", n, pattern, got, want));
                    }
                    ctx.ck(it.next().is_none() && it.next_back().is_none() && it.next().is_none(), || format!("walk of 0..{}: more elements after the end", n));
                });
            }
        }
    }));
    #[cfg(feature = "ptr")]
    {
        pointers::<u8>(&mut us, t);
        pointers::<u32>(&mut us, t);
        pointers::<elem::B3>(&mut us, t);
        pointers::<elem::Big>(&mut us, t);
        pointers::<elem::Heap>(&mut us, t);
        pointers::<elem::Al64>(&mut us, t);
        pointers::<elem::Mid>(&mut us, t);
        pointers::<elem::Vast>(&mut us, t);
    }
    us
}

fn main() {
    harness_main(units)
}
