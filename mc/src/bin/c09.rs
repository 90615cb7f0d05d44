//! Swap and rotate: every pair and range, every storage and element type; sequences.
use indexing::container_traits::*;
use indexing::{scope, Container};
use mc::elem::*;
use mc::store::*;
use mc::*;
use std::collections::HashSet;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op { Swap(usize, usize), Up(usize, usize, bool), Down(usize, usize, bool) }

fn model(v: &mut Vec<usize>, op: Op) {
    match op {
        Op::Swap(i, j) => v.swap(i, j),
        Op::Up(a, b, _) => if b > a { v[a..b].rotate_right(1) },
        Op::Down(a, b, _) => if b > a { v[a..b].rotate_left(1) },
    }
}

fn apply<'id, T, A, M>(c: &mut Container<'id, A, M>, op: Op)
where
    A: ContiguousMut<Item = T> + GetUncheckedMut,
{
    let bad = || -> ! { fail("checking a valid integer failed") };
    match op {
        Op::Swap(i, j) => {
            let (Ok(i), Ok(j)) = (c.vet(i), c.vet(j)) else { bad() };
            c.swap(i, j)
        }
        Op::Up(a, b, ne) => {
            let Ok(r) = c.vet_range(a..b) else { bad() };
            if ne { c.rotate1_up(r.nonempty().unwrap_or_else(|_| bad())) } else { c.rotate1_up(r) }
        }
        Op::Down(a, b, ne) => {
            let Ok(r) = c.vet_range(a..b) else { bad() };
            if ne { c.rotate1_down(r.nonempty().unwrap_or_else(|_| bad())) } else { c.rotate1_down(r) }
        }
    }
}

fn ops(n: usize) -> Vec<Op> {
    let mut v = vec![];
    for i in 0..n {
        for j in 0..n {
            v.push(Op::Swap(i, j));
        }
    }
    for a in 0..=n {
        for b in a..=n {
            v.extend([Op::Up(a, b, false), Op::Down(a, b, false)]);
            if b > a { v.extend([Op::Up(a, b, true), Op::Down(a, b, true)]); }
        }
    }
    v
}

/// A short history on one storage.
struct Hist<'a> { ctx: &'a mut Ctx, hist: &'a [Op], live: bool }

impl Hist<'_> {
    fn run<'id, T: Elem, A, M>(&mut self, name: &'static str, c: &mut Container<'id, A, M>, base: *const T, n: usize)
    where
        A: ContiguousMut<Item = T> + GetUncheckedMut,
    {
        let hist = self.hist;
        let d = |m: String| format!("{} of {} x {}: {:?}: {}", name, n, T::NAME, hist, m);
        self.ctx.case(|| d(String::new()));
        let mut m: Vec<usize> = (0..n).collect();
        for &op in hist {
            self.ctx.transitions += 1;
            model(&mut m, op);
            apply(c, op);
        }
        let got = ids(base, n);
        let want = want_ids::<T>(m.iter().copied());
        self.ctx.ck(got == want, || d(format!("elements are {:?} instead of {:?}", got, want)));
        self.ctx.nontrivial += (0..n).any(|i| m[i] != i) as u64;
        self.ctx.obs(&m);
        self.ctx.states += 1;
        self.live = true;
    }
}
impl<T: Elem> Mutable<T> for Hist<'_> {
    fn begin(&mut self) { live_reset() }
    fn visit<'id, A>(&mut self, name: &'static str, c: &mut Container<'id, A>, base: *const T, n: usize)
    where A: ContiguousMut<Item = T> + GetUncheckedMut { self.run(name, c, base, n) }
    fn visit_only<'id, A>(&mut self, name: &'static str, c: &mut Container<'id, A, OnlyIndex>, base: *const T, n: usize)
    where A: ContiguousMut<Item = T> + GetUncheckedMut { self.run(name, c, base, n) }
    fn done(&mut self, name: &'static str, n: usize, ok: bool) {
        let h = self.hist;
        self.ctx.ck(ok, || format!("{} of {} x {}: {:?} changed an element outside the container", name, n, T::NAME, h));
        // every element is alive exactly once (guards included); counting stays zero for plain types
        if std::mem::needs_drop::<T>() {
            let _ = self.live;
        }
    }
}

fn hist<T: Elem>(ctx: &mut Ctx, n: usize, h: &[Op], full: bool) {
    each_mut::<T, _>(n, full, &mut Hist { ctx, hist: h, live: false });
    // everything has been dropped again, once
    if let Some((i, c)) = live_bad(0, 0) {
        fail(format!("{} x {}: {:?}: id {} is live {} times after everything was dropped", n, T::NAME, h, i, c));
    }
}

fn typed<T: Elem>(us: &mut Vec<Unit>, t: Tier) {
    us.push(unit(format!("every operation {}", T::NAME), move |ctx| {
        for n in 0..=t.pick(4, 9, 14) {
            for op in ops(n) {
                hist::<T>(ctx, n, &[op], true);
            }
        }
    }));
    us.push(unit(format!("every pair of operations {}", T::NAME), move |ctx| {
        for n in 0..=t.pick(2, 4, 5) {
            let o = ops(n);
            for &x in &o {
                for &y in &o {
                    hist::<T>(ctx, n, &[x, y], false);
                }
            }
        }
    }));
    us.push(unit(format!("long containers {}", T::NAME), move |ctx| {
        for n in t.pick(vec![17], vec![15, 16, 17, 31, 32, 33, 64, 65], vec![15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]) {
            for op in ops(n) {
                if n <= 17 || matches!(op, Op::Swap(i, j) if (i + j) % 7 < 2 || i == j) || matches!(op, Op::Up(a, b, true) | Op::Down(a, b, true) if a < 3 || b + 3 > n || b - a < 3) {
                    one::<T>(ctx, n, op);
                }
            }
        }
        for n in [1000usize, 65537] {
            if T::DISTINCT < 256 && !T::ZST { continue; }
            for op in [Op::Swap(0, n - 1), Op::Swap(n - 1, 0), Op::Swap(255, 256), Op::Up(0, n, false), Op::Down(0, n, false), Op::Up(1, n - 1, true), Op::Down(1, n - 1, true), Op::Up(255, 513, false), Op::Down(255, 513, true)] {
                one::<T>(ctx, n, op);
            }
        }
    }));
}

fn one<T: Elem>(ctx: &mut Ctx, n: usize, op: Op) {
    live_reset();
    let mut g = Guarded::<T>::new(n);
    ctx.case(|| format!("&mut [T] of {} x {}: {:?}", n, T::NAME, op));
    ctx.transitions += 1;
    scope(g.mid_mut(), |mut c| apply(&mut c, op));
    let mut m: Vec<usize> = (0..n).collect();
    model(&mut m, op);
    let want = want_ids::<T>(m.iter().copied());
    ctx.ck(g.ids() == want && g.guards_ok(), || format!("&mut [T] of {} x {}: {:?} gives wrong elements", n, T::NAME, op));
    drop(g);
    if let Some((i, c)) = live_bad(0, 0) {
        fail(format!("{} x {}: {:?}: id {} is live {} times after everything was dropped", n, T::NAME, op, i, c));
    }
    ctx.obs(&(n, op));
    ctx.states += 1;
    ctx.nontrivial += 1;
}

/// Explicit-state search over arrangements, each reached on the real container.
fn search<T: Elem>(ctx: &mut Ctx, n: usize) {
    let o = ops(n);
    let mut seen: HashSet<Vec<usize>> = HashSet::new();
    let init: Vec<usize> = (0..n).collect();
    seen.insert(init.clone());
    let mut work = vec![init];
    let mut g = Guarded::<T>::new(n);
    while let Some(st) = work.pop() {
        ctx.states += 1;
        for &op in &o {
            // bring the buffer into state `st` (by safe swaps)
            let s = g.mid_mut();
            for i in 0..n {
                let j = (i..n).find(|&j| s[j].id() == T::mk_id(st[i])).unwrap_or_else(|| fail(format!("element {} has vanished", st[i])));
                s.swap(i, j);
            }
            ctx.case(|| format!("{} from arrangement {:?}: {:?}", T::NAME, st, op));
            ctx.transitions += 1;
            scope(g.mid_mut(), |mut c| apply(&mut c, op));
            let mut m = st.clone();
            model(&mut m, op);
            ctx.ck(g.ids() == want_ids::<T>(m.iter().copied()) && g.guards_ok(), || format!("{} from arrangement {:?}: {:?} gives {:?}", T::NAME, st, op, g.ids()));
            if seen.insert(m.clone()) {
                ctx.nontrivial += 1;
                ctx.obs(&m);
                work.push(m);
            }
        }
    }
}

fn units(t: Tier) -> Vec<Unit> {
    let mut us = vec![];
    typed::<u8>(&mut us, t);
    typed::<u16>(&mut us, t);
    typed::<u32>(&mut us, t);
    typed::<B3>(&mut us, t);
    typed::<Big>(&mut us, t);
    typed::<Al64>(&mut us, t);
    typed::<Words<2>>(&mut us, t);
    typed::<Mid>(&mut us, t);
    typed::<Vast>(&mut us, t);
    typed::<()>(&mut us, t);
    typed::<Tok>(&mut us, t);
    typed::<Heap>(&mut us, t);
    typed::<Ztok>(&mut us, t);
    for n in 1..=t.pick(3, 6, 7) {
        us.push(unit(format!("arrangements n={}", n), move |ctx| {
            search::<u32>(ctx, n);
            search::<Heap>(ctx, n);
        }));
    }
    us.push(unit("swap in a user-defined storage", move |ctx| {
        fn go<T: Elem>(ctx: &mut Ctx, n: usize) {
            for i in 0..n {
                for j in 0..n {
                    let mut s = Scattered::<T>::new(n);
                    ctx.case(|| format!("user-defined storage of {} x {}: swap {} {}", n, T::NAME, i, j));
                    ctx.transitions += 1;
                    scope(&mut s, |mut c| {
                        let (a, b) = (c.vet(i).ok().unwrap(), c.vet(j).ok().unwrap());
                        c.swap(a, b)
                    });
                    let mut m: Vec<usize> = (0..n).collect();
                    m.swap(i, j);
                    let got: Vec<usize> = s.parts.iter().map(|x| x.id()).collect();
                    ctx.ck(got == m, || format!("user-defined storage of {} x {}: swap {} {} gives {:?}", n, T::NAME, i, j, got));
                    ctx.obs(&(n, i, j));
                    ctx.nontrivial += (i != j) as u64;
                }
            }
            ctx.states += 1;
        }
        for n in 0..=t.pick(3, 7, 12) {
            go::<u32>(ctx, n);
            go::<Heap>(ctx, n);
        }
    }));
    us.push(unit("far places", move |ctx| {
        fn go<T: Elem + huge::Zeroable>(ctx: &mut Ctx, n: usize) {
            let ps: Vec<usize> = huge::places(n).into_iter().filter(|x| *x < n).collect();
            let k = ps.len();
            huge::with::<T>(n, |s| {
                // only these places hold something other than zero bytes
                let mut cur: Vec<usize> = (0..k).map(|i| i + 1).collect();
                for (i, &p) in ps.iter().enumerate() { s[p] = T::mk(i + 1); }
                let verify = |ctx: &mut Ctx, s: &[T], cur: &[usize], what: &dyn Fn() -> String| {
                    if let Some(i) = (0..k).find(|&i| s[ps[i]].id() != T::mk_id(cur[i])) { fail(format!("{} x {}: {}: the element at {} is {} instead of {}", n, T::NAME, what(), ps[i], s[ps[i]].id(), cur[i])); }
                    ctx.obs(cur);
                    ctx.states += 1;
                    ctx.nontrivial += 1;
                };
                for i in 0..k { for j in 0..k {
                    let op = Op::Swap(ps[i], ps[j]);
                    ctx.case(|| format!("{} x {}: {:?}", n, T::NAME, op));
                    ctx.transitions += 1;
                    scope(&mut *s, |mut c| apply(&mut c, op));
                    cur.swap(i, j);
                    verify(ctx, s, &cur, &|| format!("{:?}", op));
                } }
                // rotations of adjacent places
                for i in 0..k { for j in i + 1..=k {
                    if ps[j - 1] - ps[i] != j - 1 - i { break; }
                    for op in [Op::Up(ps[i], ps[j - 1] + 1, false), Op::Down(ps[i], ps[j - 1] + 1, true), Op::Down(ps[i], ps[j - 1] + 1, false), Op::Up(ps[i], ps[j - 1] + 1, true)] {
                        ctx.case(|| format!("{} x {}: {:?}", n, T::NAME, op));
                        ctx.transitions += 1;
                        scope(&mut *s, |mut c| apply(&mut c, op));
                        match op { Op::Up(..) => cur[i..j].rotate_right(1), _ => cur[i..j].rotate_left(1) }
                        verify(ctx, s, &cur, &|| format!("{:?}", op));
                    }
                } }
            });
        }
        for n in huge::LENGTHS {
            go::<u8>(ctx, n);
            go::<u16>(ctx, n);
            go::<u64>(ctx, n);
        }
    }));
    us
}

fn main() {
    harness_main(units)
}
