//! Paired access: every pair of ranges.
use indexing::container_traits::*;
use indexing::{scope, Container, Range};
use mc::elem::*;
use mc::store::*;
use mc::*;

type Sp = (usize, usize);

/// One pair of ranges on one storage.
struct Pair<'a> { ctx: &'a mut Ctx, r: Sp, s: Sp }

impl Pair<'_> {
    fn two<'id, T: Elem, A, M, P: Tag, Q: Tag>(&mut self, name: &'static str, c: &mut Container<'id, A, M>, base: *const T, n: usize, r: Range<'id, P>, s: Range<'id, Q>)
    where
        A: ContiguousMut<Item = T> + GetUncheckedMut,
    {
        let (a, b) = (self.r, self.s);
        let d = |m: String| format!("{} of {} x {}: {:?} (marked {}) and {:?} (marked {}): {}", name, n, T::NAME, a, P::NE, b, Q::NE, m);
        self.ctx.case(|| d("index_twice".into()));
        self.ctx.transitions += 1;
        let ok = a.1 <= b.0;
        let before = ids(base, n);
        match c.index_twice(r, s) {
            Ok((x, y)) => {
                self.ctx.ck(ok, || d("index_twice accepts ranges that are not in order".into()));
                self.ctx.ck(is_sub(base, x, a.0, a.1 - a.0), || d(format!("index_twice: the first is {} elements at offset {:?}", x.len(), off(base, x.as_ptr()))));
                self.ctx.ck(is_sub(base, y, b.0, b.1 - b.0), || d(format!("index_twice: the second is {} elements at offset {:?}", y.len(), off(base, y.as_ptr()))));
                // write to both, the second first
                let f = 2 * n + 10;
                for (k, e) in y.iter_mut().enumerate() { *e = T::mk(f + b.0 + k); }
                for (k, e) in x.iter_mut().enumerate() { *e = T::mk(f + a.0 + k); }
                let got = ids(base, n);
                let want: Vec<usize> = (0..n).map(|i| if (i >= a.0 && i < a.1) || (i >= b.0 && i < b.1) { T::mk_id(f + i) } else { before[i] }).collect();
                self.ctx.ck(got == want, || d(format!("index_twice: after writing, elements are {:?} instead of {:?}", got, want)));
                // restore
                let all = c.range();
                for (i, e) in c[all].iter_mut().enumerate() { *e = T::mk(i); }
                self.ctx.nontrivial += 1;
            }
            Err(_) => self.ctx.ck(!ok, || d("index_twice refuses ranges that are in order".into())),
        }
        self.ctx.obs(&(ok, a, b, n));
        let mut got = vec![];
        self.ctx.case(|| d("zip_mut_raw".into()));
        self.ctx.transitions += 1;
        c.zip_mut_raw(r, s, |p, q| got.push((off(base, p as *const T), off(base, q as *const T))));
        let l = (a.1 - a.0).min(b.1 - b.0);
        self.ctx.ck(got.len() == l, || d(format!("zip_mut_raw visits {} pairs instead of {}", got.len(), l)));
        if !T::ZST {
            let bad = (0..l).find(|&k| got[k] != (Some((a.0 + k) as isize), Some((b.0 + k) as isize)));
            self.ctx.ck(bad.is_none(), || d(format!("zip_mut_raw visits {:?}", got)));
        }
        let now = ids(base, n);
        self.ctx.ck(now == want_ids::<T>(0..n), || d(format!("zip_mut_raw changed the elements to {:?}", now)));
        // exchange the pairs through the raw pointers
        if a.1 <= b.0 || b.1 <= a.0 {
            c.zip_mut_raw(r, s, |p, q| unsafe { std::ptr::swap(p, q) });
            let mut m: Vec<usize> = (0..n).collect();
            for k in 0..l { m.swap(a.0 + k, b.0 + k); }
            let now = ids(base, n);
            self.ctx.ck(now == want_ids::<T>(m.iter().copied()), || d(format!("swapping by zip_mut_raw gives {:?}", now)));
            c.zip_mut_raw(r, s, |p, q| unsafe { std::ptr::swap(p, q) });
        }
    }
    fn run<'id, T: Elem, A, M>(&mut self, name: &'static str, c: &mut Container<'id, A, M>, base: *const T, n: usize)
    where
        A: ContiguousMut<Item = T> + GetUncheckedMut,
    {
        let (Ok(r), Ok(s)) = (c.vet_range(self.r.0..self.r.1), c.vet_range(self.s.0..self.s.1)) else { fail("checking a valid range failed") };
        self.ctx.states += 1;
        self.two(name, c, base, n, r, s);
        if let Ok(q) = r.nonempty() { self.two(name, c, base, n, q, s); }
        if let Ok(q) = s.nonempty() { self.two(name, c, base, n, r, q); }
        if let (Ok(p), Ok(q)) = (r.nonempty(), s.nonempty()) { self.two(name, c, base, n, p, q); }
    }
}
impl<T: Elem> Mutable<T> for Pair<'_> {
    fn begin(&mut self) { live_reset() }
    fn visit<'id, A>(&mut self, name: &'static str, c: &mut Container<'id, A>, base: *const T, n: usize)
    where A: ContiguousMut<Item = T> + GetUncheckedMut { self.run(name, c, base, n) }
    fn visit_only<'id, A>(&mut self, name: &'static str, c: &mut Container<'id, A, OnlyIndex>, base: *const T, n: usize)
    where A: ContiguousMut<Item = T> + GetUncheckedMut { self.run(name, c, base, n) }
    fn done(&mut self, name: &'static str, n: usize, ok: bool) {
        let p = (self.r, self.s);
        self.ctx.ck(ok, || format!("{} of {} x {}: {:?} changed an element outside the container", name, n, T::NAME, p));
    }
}

fn pairs(n: usize, f: &mut dyn FnMut(Sp, Sp)) {
    for a in 0..=n { for b in a..=n { for c in 0..=n { for d in c..=n { f((a, b), (c, d)) } } } }
}

fn typed<T: Elem>(us: &mut Vec<Unit>, t: Tier) {
    for n in 0..=t.pick(3, 7, 10) {
        us.push(unit(format!("pairs {} n={}", T::NAME, n), move |ctx| {
            pairs(n, &mut |r, s| {
                each_mut::<T, _>(n, n <= 5, &mut Pair { ctx, r, s });
                if let Some((i, c)) = live_bad(0, 0) {
                    fail(format!("{} x {}: {:?} {:?}: id {} is live {} times after everything was dropped", n, T::NAME, r, s, i, c));
                }
            });
        }));
    }
}

fn units(t: Tier) -> Vec<Unit> {
    let mut us = vec![];
    typed::<u8>(&mut us, t);
    typed::<u32>(&mut us, t);
    typed::<B3>(&mut us, t);
    typed::<Big>(&mut us, t);
    typed::<Mid>(&mut us, t);
    typed::<Vast>(&mut us, t);
    typed::<Al64>(&mut us, t);
    typed::<()>(&mut us, t);
    typed::<Heap>(&mut us, t);
    typed::<Ztok>(&mut us, t);
    us.push(unit("large", move |ctx| {
        fn go<T: Elem>(ctx: &mut Ctx, n: usize) {
            let mut g = Guarded::<T>::new(n);
            let base = g.mid().as_ptr();
            let ps: Vec<usize> = [0, 1, n / 2 - 1, n / 2, n / 2 + 1, n - 1, n, 255, 256, 257].into_iter().filter(|x| *x <= n).collect();
            scope(g.mid_mut(), |mut c| {
                for &a in &ps { for &b in &ps { for &s in &ps { for &e in &ps {
                    let (Ok(x), Ok(y)) = (c.vet_range(a..b), c.vet_range(s..e)) else { continue };
                    let d = |m: &str| format!("{} x {}: {}..{} and {}..{}: {}", n, T::NAME, a, b, s, e, m);
                    ctx.case(|| d(""));
                    ctx.transitions += 2;
                    match c.index_twice(x, y) {
                        Ok((u, v)) => ctx.ck(b <= s && is_sub(base, u, a, b - a) && is_sub(base, v, s, e - s), || d("index_twice gives wrong slices")),
                        Err(_) => ctx.ck(b > s, || d("index_twice refused")),
                    }
                    let mut k = 0;
                    let mut bad = false;
                    c.zip_mut_raw(x, y, |p, q| {
                        bad |= !is_at(base, p, a + k) || !is_at(base, q, s + k);
                        k += 1;
                    });
                    ctx.ck(!bad && k == (b - a).min(e - s), || d("zip_mut_raw visits wrong pairs"));
                    ctx.obs(&(n, a, b, s, e));
                    ctx.nontrivial += 1;
                }}}}
            });
            ctx.states += 1;
        }
        for n in [64, 255, 256, 257, 300] {
            go::<u8>(ctx, n);
            go::<Big>(ctx, n);
        }
        go::<u16>(ctx, t.pick(300, 1000, 65537));
    }));
    // disjointness decisions at the largest lengths
    us.push(unit("zero-sized, boundary lengths", move |ctx| {
        for n in closures::big_lengths(t) {
            let z: &mut [()] = unsafe { std::slice::from_raw_parts_mut(std::ptr::NonNull::dangling().as_ptr(), n) };
            let ps = gen::points(n);
            scope(z, |mut c| {
                for &a in &ps { for &b in &ps { for &s in &ps { for &e in &ps {
                    if (a > b) || (s > e) { continue; }
                    let (Ok(x), Ok(y)) = (c.vet_range(a..b), c.vet_range(s..e)) else { fail("checking a valid range failed") };
                    ctx.case(|| format!("{} zero-sized: index_twice {}..{} and {}..{}", n, a, b, s, e));
                    ctx.transitions += 1;
                    let got = c.index_twice(x, y).map(|(u, v)| (u.len(), v.len())).ok();
                    let want = if b <= s { Some((b - a, e - s)) } else { None };
                    ctx.ck(got == want, || format!("{} zero-sized: index_twice {}..{} and {}..{} gives {:?}", n, a, b, s, e, got));
                    ctx.obs(&got);
                    ctx.nontrivial += got.is_some() as u64;
                    if (b - a).min(e - s) < 300 {
                        let mut k = 0;
                        c.zip_mut_raw(x, y, |_, _| k += 1);
                        ctx.ck(k == (b - a).min(e - s), || format!("{} zero-sized: zip_mut_raw {}..{} and {}..{} visits {}", n, a, b, s, e, k));
                    }
                }}}}
                ctx.states += 1;
            });
        }
    }));
    us.push(unit("user-defined storage", move |ctx| {
        for n in 0..=t.pick(3, 6, 8) {
            pairs(n, &mut |r, s| {
                let mut st = Scattered::<u32>::new(n);
                let at: Vec<*const u32> = (0..n).map(|i| st.at(i)).collect();
                ctx.case(|| format!("user-defined storage of {}: zip_mut_raw {:?} {:?}", n, r, s));
                ctx.transitions += 1;
                let l = (r.1 - r.0).min(s.1 - s.0);
                let mut got = vec![];
                scope(&mut st, |mut c| {
                    let (x, y) = (c.vet_range(r.0..r.1).ok().unwrap(), c.vet_range(s.0..s.1).ok().unwrap());
                    c.zip_mut_raw(x, y, |p, q| got.push((p as *const u32, q as *const u32)));
                });
                let want: Vec<_> = (0..l).map(|k| (at[r.0 + k], at[s.0 + k])).collect();
                ctx.ck(got == want, || format!("user-defined storage of {}: zip_mut_raw {:?} {:?} visits other elements", n, r, s));
                ctx.obs(&(l, r, s));
                ctx.nontrivial += (l > 0) as u64;
                ctx.states += 1;
            });
        }
    }));
    us.push(unit("far places", move |ctx| {
        fn go<T: Elem + huge::Zeroable>(ctx: &mut Ctx, n: usize) {
            let ps = huge::places(n);
            let rs: Vec<Sp> = ps.iter().flat_map(|&a| ps.iter().map(move |&b| (a, b))).filter(|(a, b)| a <= b).collect();
            huge::with::<T>(n, |x| {
                let base = x.as_ptr();
                scope(x, |mut c| for &r in &rs { for &s in &rs {
                    let (Ok(p), Ok(q)) = (c.vet_range(r.0..r.1), c.vet_range(s.0..s.1)) else { fail("checking a valid range failed") };
                    let d = |m: &str| format!("{} x {}: {:?} and {:?}: {}", n, T::NAME, r, s, m);
                    ctx.case(|| d(""));
                    ctx.transitions += 1;
                    match c.index_twice(p, q) {
                        Ok((u, v)) => ctx.ck(r.1 <= s.0 && is_sub(base, u, r.0, r.1 - r.0) && is_sub(base, v, s.0, s.1 - s.0), || d("index_twice gives wrong slices")),
                        Err(_) => ctx.ck(r.1 > s.0, || d("index_twice refused")),
                    }
                    let l = (r.1 - r.0).min(s.1 - s.0);
                    if l < 10 {
                        let (mut k, mut bad) = (0, false);
                        c.zip_mut_raw(p, q, |u, v| { bad |= !is_at(base, u, r.0 + k) || !is_at(base, v, s.0 + k); k += 1; });
                        ctx.ck(!bad && k == l, || d("zip_mut_raw visits wrong pairs"));
                        ctx.transitions += 1;
                    }
                    ctx.nontrivial += 1;
                    ctx.obs(&(r, s));
                } });
            });
            ctx.states += 1;
        }
        for n in huge::LENGTHS { go::<u8>(ctx, n); }
        go::<Big>(ctx, (1 << 32) + 5);
    }));
    // one long walk
    us.push(unit("a long walk", move |ctx| {
        for (n, o) in [(65537usize, 1), (131_075, 2), (t.pick(65537, 1 << 20, 1 << 24), 70_000)] {
            let mut g = Guarded::<u8>::new(n + o);
            let base = g.mid().as_ptr();
            ctx.case(|| format!("{} x u8: zip_mut_raw of 0..{} and {}..{}", n + o, n, o, n + o));
            ctx.transitions += 1;
            scope(g.mid_mut(), |mut c| {
                let (p, q) = (c.vet_range(0..n).ok().unwrap(), c.vet_range(o..n + o).ok().unwrap());
                let (mut k, mut bad) = (0, false);
                c.zip_mut_raw(p, q, |u, v| { bad |= !is_at(base, u, k) || !is_at(base, v, o + k); k += 1; });
                ctx.ck(!bad && k == n, || format!("{} x u8: zip_mut_raw of 0..{} and {}..{} visits {} pairs or wrong ones", n + o, n, o, n + o, k));
            });
            ctx.states += 1;
        }
    }));
    us
}

fn main() {
    harness_main(units)
}
