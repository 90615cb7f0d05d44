//! Growing: every history of pushes, insertions and edits, against a list.
#[cfg(feature = "std")]
mod go {
    use indexing::container::OnlyIndex;
    use indexing::container_traits::*;
    use indexing::proof::Provable;
    use indexing::{scope, Container, Index, NonEmpty, Range, Unknown};
    use mc::elem::*;
    use mc::*;

    /// A user-defined growable storage: boxed elements, every unchecked access recorded as a violation if wrong.
    pub struct Boxes<T>(pub Vec<Box<T>>);
    unsafe impl<T> Trustworthy for Boxes<T> {
        type Item = T;
        fn base_len(&self) -> usize { self.0.len() }
    }
    unsafe impl<T> GetUnchecked for Boxes<T> {
        unsafe fn xget_unchecked(&self, i: usize) -> &T {
            match self.0.get(i) { Some(x) => x, None => fail(format!("unchecked read of element {} of {}", i, self.0.len())) }
        }
    }
    unsafe impl<T> GetUncheckedMut for Boxes<T> {
        unsafe fn xget_unchecked_mut(&mut self, i: usize) -> &mut T {
            let n = self.0.len();
            match self.0.get_mut(i) { Some(x) => x, None => fail(format!("unchecked write of element {} of {}", i, n)) }
        }
    }
    unsafe impl<T> Pushable for Boxes<T> {
        fn push(&mut self, x: T) -> usize { self.0.push(Box::new(x)); self.0.len() - 1 }
        unsafe fn insert_unchecked(&mut self, i: usize, x: T) {
            if i > self.0.len() { fail(format!("unchecked insertion at {} of {}", i, self.0.len())) }
            self.0.insert(i, Box::new(x))
        }
    }

    /// A storage a history can run on.
    pub trait Grow<T>: Pushable<Item = T> + GetUncheckedMut {
        const SLICES: bool;
        fn slice<'a, 'id, P>(_c: &'a Container<'id, Self, OnlyIndex>, _r: Range<'id, P>) -> Option<&'a [T]> where Self: Sized { None }
    }
    impl<T> Grow<T> for Boxes<T> { const SLICES: bool = false; }
    macro_rules! sliced { ($($t:ty),*) => { $(impl<T> Grow<T> for $t {
        const SLICES: bool = true;
        fn slice<'a, 'id, P>(c: &'a Container<'id, Self, OnlyIndex>, r: Range<'id, P>) -> Option<&'a [T]> { Some(&c[r]) }
    })* } }
    sliced!(Vec<T>, &mut Vec<T>, &mut &mut Vec<T>);

    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
    pub enum Op {
        Push,
        /// insert through an edge index obtained now
        InsFresh(usize),
        /// insert through a dereferenceable index obtained earlier (the first one with this position)
        InsOld(usize),
        /// insert through an edge index obtained earlier
        InsOldEdge(usize),
        /// write through an index obtained earlier
        Write(usize),
        Swap(usize, usize),
        RotUp(usize, usize),
        RotDown(usize, usize),
    }

    /// Everything obtained so far. Positions never go out of bounds, so each stays usable.
    #[derive(Default)]
    pub struct Held<'id> {
        ne: Vec<Index<'id, NonEmpty>>,
        edge: Vec<Index<'id, Unknown>>,
        ranges: Vec<Range<'id, Unknown>>,
        nranges: Vec<Range<'id, NonEmpty>>,
    }
    impl<'id> Held<'id> {
        fn collect<A: Trustworthy<Item = T>, T, M>(&mut self, c: &Container<'id, A, M>, n: usize, all: bool) {
            for a in 0..=n {
                for b in a..=n {
                    // later epochs: only what touches the newest positions
                    if !all && b < n { continue; }
                    let Ok(r) = c.vet_range(a..b) else { fail(format!("vet_range({}..{}) with length {} refused", a, b, n)) };
                    self.ranges.push(r);
                    if let Ok(q) = r.nonempty() { self.nranges.push(q); }
                    if a == b { self.edge.push(r.first()); }
                }
                if a < n && (all || a + 1 == n) {
                    let Ok(i) = c.vet(a) else { fail(format!("vet({}) with length {} refused", a, n)) };
                    self.ne.push(i);
                }
            }
        }
    }

    pub struct Run<'a> {
        pub ctx: &'a mut Ctx,
        pub name: &'static str,
        pub n0: usize,
        pub spare: usize,
        pub ops: &'a [Op],
    }

    impl Run<'_> {
        fn d(&self, t: &str, k: usize, m: String) -> String {
            format!("{} of {} x {} (spare capacity {}), {:?}, after step {}: {}", self.name, self.n0, t, self.spare, self.ops, k, m)
        }
        fn check<'id, T: Elem, A: Grow<T>>(&mut self, c: &Container<'id, A, OnlyIndex>, h: &Held<'id>, m: &[usize], k: usize) {
            let n = m.len();
            let t = T::NAME;
            self.ctx.states += 1;
            let want = |i: usize| T::mk_id(m[i]);
            if c.len() != n { fail(self.d(t, k, format!("len is {} instead of {}", c.len(), n))); }
            if c.vet(n).is_ok() { fail(self.d(t, k, format!("vet({}) accepted with length {}", n, n))); }
            if c.vet_range(0..n + 1).is_ok() { fail(self.d(t, k, format!("vet_range(0..{}) accepted with length {}", n + 1, n))); }
            let r = c.range();
            if (r.start(), r.end()) != (0, n) { fail(self.d(t, k, format!("range() is {:?}", r))); }
            for i in &h.ne {
                let p = i.integer();
                if p >= n { fail(self.d(t, k, format!("index {} with length {}", p, n))); }
                let x = c[*i].id();
                if x != want(p) { fail(self.d(t, k, format!("c[{}] is {} instead of {}", p, x, want(p)))); }
            }
            for i in &h.edge {
                if i.integer() > n { fail(self.d(t, k, format!("edge index {} with length {}", i.integer(), n))); }
            }
            let mut chk = |s: Option<&[T]>, a: usize, b: usize| {
                if b > n { fail(self.d(t, k, format!("range {}..{} with length {}", a, b, n))); }
                if let Some(s) = s {
                    if s.len() != b - a { fail(self.d(t, k, format!("c[{}..{}] has length {}", a, b, s.len()))); }
                    for (q, x) in s.iter().enumerate() {
                        if x.id() != want(a + q) { fail(self.d(t, k, format!("c[{}..{}][{}] is {} instead of {}", a, b, q, x.id(), want(a + q)))); }
                    }
                }
            };
            for r in &h.ranges { chk(A::slice(c, *r), r.start(), r.end()); }
            for r in &h.nranges { chk(A::slice(c, *r), r.start(), r.end()); }
        }
        pub fn run<'id, T: Elem, A: Grow<T>>(&mut self, c: Container<'id, A>) {
            let t = T::NAME;
            let (ops, n0) = (self.ops, self.n0);
            let (name, spare) = (self.name, self.spare);
            self.ctx.case(|| format!("{} of {} x {} (spare capacity {}), {:?}", name, n0, t, spare, ops));
            let mut m: Vec<usize> = (0..self.n0).collect();
            let mut h = Held::default();
            // from before the container became growable
            h.collect(&c, self.n0, true);
            let mut c = c.only_index();
            let mut fresh = 100;
            self.check::<T, A>(&c, &h, &m, 0);
            for (k, &op) in self.ops.iter().enumerate() {
                let n = m.len();
                self.ctx.transitions += 1;
                let old = |p: usize| *h.ne.iter().find(|i| i.integer() == p).unwrap();
                match op {
                    Op::Push => {
                        let i = c.push(T::mk(fresh));
                        m.push(fresh);
                        if i.integer() != n { fail(self.d(t, k + 1, format!("push returned index {} instead of {}", i.integer(), n))); }
                        h.ne.push(i);
                    }
                    Op::InsFresh(p) => {
                        let Ok(r) = c.vet_range(p..p) else { fail(self.d(t, k, format!("vet_range({}..{}) refused", p, p))) };
                        c.insert(r.first().no_proof(), T::mk(fresh));
                        m.insert(p, fresh);
                    }
                    Op::InsOld(p) => {
                        c.insert(old(p), T::mk(fresh));
                        m.insert(p, fresh);
                    }
                    Op::InsOldEdge(p) => {
                        let i = *h.edge.iter().find(|i| i.integer() == p).unwrap();
                        c.insert(i, T::mk(fresh));
                        m.insert(p, fresh);
                    }
                    Op::Write(p) => {
                        c[old(p)] = T::mk(fresh);
                        m[p] = fresh;
                    }
                    Op::Swap(p, q) => {
                        c.swap(old(p), old(q));
                        m.swap(p, q);
                    }
                    Op::RotUp(..) | Op::RotDown(..) => {}
                }
                fresh += 1;
                let n = m.len();
                if n > 0 { h.collect(&c, n, false); }
                self.check::<T, A>(&c, &h, &m, k + 1);
            }
            self.ctx.nontrivial += (m.len() > self.n0) as u64;
            self.ctx.obs(&(m, self.spare));
            // the old ones are in the container, the dropped ones are not
        }
    }

    pub fn alphabet(n: usize, n0: usize, edits: bool, f: &mut dyn FnMut(Op)) {
        f(Op::Push);
        for p in 0..=n { f(Op::InsFresh(p)); }
        // through indices from before any growth
        for p in 0..n0 { f(Op::InsOld(p)); }
        if n > n0 { f(Op::InsOld(n - 1)); }
        f(Op::InsOldEdge(0));
        f(Op::InsOldEdge(n0));
        if edits && n > 0 {
            f(Op::Write(0));
            f(Op::Write(n - 1));
            f(Op::Swap(0, n - 1));
        }
    }
    fn histories(n0: usize, depth: usize, edits: bool, f: &mut dyn FnMut(&[Op])) {
        fn rec(a: &mut Vec<Op>, n: usize, n0: usize, depth: usize, edits: bool, f: &mut dyn FnMut(&[Op])) {
            if a.len() == depth { f(a); return; }
            let mut ops = vec![];
            alphabet(n, n0, edits, &mut |o| ops.push(o));
            for o in ops {
                let grows = !matches!(o, Op::Write(_) | Op::Swap(..) | Op::RotUp(..) | Op::RotDown(..));
                a.push(o);
                rec(a, n + grows as usize, n0, depth, edits, f);
                a.pop();
            }
        }
        rec(&mut vec![], n0, n0, depth, edits, f)
    }

    fn vec<T: Elem>(n: usize, spare: usize) -> Vec<T> {
        let mut v = Vec::with_capacity(n + spare);
        v.extend((0..n).map(T::mk));
        v
    }
    fn typed<T: Elem>(us: &mut Vec<Unit>, storages: &'static [&'static str], n0s: std::ops::RangeInclusive<usize>, depth: usize, edits: bool, spares: &'static [usize]) {
        for n0 in n0s {
            for &name in storages {
                let sp: &'static [usize] = if name == "boxes" { &[0] } else { spares };
                for &spare in sp {
                    us.push(unit(format!("{} {} n={} depth={} spare={}", name, T::NAME, n0, depth, spare), move |ctx| {
                        histories(n0, depth, edits, &mut |ops| {
                            live_reset();
                            let mut r = Run { ctx: &mut *ctx, name, n0, spare, ops };
                            match name {
                                "Vec" => scope(vec::<T>(n0, spare), |c| r.run::<T, _>(c)),
                                "&mut Vec" => scope(&mut vec::<T>(n0, spare), |c| r.run::<T, _>(c)),
                                "&mut &mut Vec" => scope(&mut &mut vec::<T>(n0, spare), |c| r.run::<T, _>(c)),
                                _ => scope(Boxes(vec::<T>(n0, 0).into_iter().map(Box::new).collect()), |c| r.run::<T, _>(c)),
                            }
                            if let Some((i, c)) = live_bad(0, 0) {
                                fail(format!("{} of {} x {}, {:?}: id {} is live {} times after everything was dropped", name, n0, T::NAME, ops, i, c));
                            }
                        });
                    }));
                }
            }
        }
    }

    pub fn units(t: Tier) -> Vec<Unit> {
        let mut us = vec![];
        let all = &["Vec", "&mut Vec", "&mut &mut Vec", "boxes"];
        let d = t.pick(3, 4, 4);
        if t == Tier::Thorough {
            typed::<u8>(&mut us, all, 0..=3, 5, true, &[0, 1]);
            typed::<Tok>(&mut us, &["Vec", "boxes"], 0..=3, 5, true, &[0]);
            typed::<u8>(&mut us, &["Vec"], 0..=0, 7, false, &[0]);
            typed::<u8>(&mut us, &["Vec"], 0..=1, 6, true, &[0]);
        }
        typed::<u8>(&mut us, all, 0..=3, d, true, &[0, 1, 8]);
        typed::<Tok>(&mut us, all, 0..=3, d, true, &[0, 2]);
        typed::<Heap>(&mut us, &["Vec", "&mut Vec"], 0..=3, d, true, &[0, 1]);
        typed::<Big>(&mut us, &["Vec"], 0..=3, d, false, &[0, 2]);
        typed::<Al64>(&mut us, &["&mut Vec"], 0..=2, d, false, &[0]);
        typed::<Vast>(&mut us, &["Vec", "&mut Vec"], 0..=2, d - 1, false, &[0, 1]);
        typed::<Ztok>(&mut us, &["Vec", "&mut Vec"], 0..=3, d, true, &[0]);
        // deeper, growth only, from few elements
        typed::<u16>(&mut us, &["Vec", "&mut Vec"], 0..=2, t.pick(4, 5, 6), false, &[0]);
        for n in t.pick(vec![], vec![15, 16, 31, 32], vec![15, 16, 31, 32, 63, 64, 127, 128, 255, 256]) {
            typed::<u16>(&mut us, &["Vec"], n..=n, if n < 100 { 2 } else { 1 }, false, &[0]);
        }
        // long histories: every word of up to 3 operations, repeated
        for len in t.pick(vec![], vec![40], vec![40, 70]) {
            us.push(unit(format!("repeated words, {} steps", len), move |ctx| {
                for w in 1..=3 {
                    gen::sequences(w, 5, &mut |word| {
                        let mut ops = vec![];
                        for k in 0..len {
                            let n = k;
                            ops.push(match word[k % w] { 0 => Op::Push, 1 => Op::InsFresh(0), 2 => Op::InsFresh(n / 2), 3 => Op::InsFresh(n), _ => Op::InsOldEdge(0) });
                        }
                        let mut r = Run { ctx: &mut *ctx, name: "Vec", n0: 0, spare: 0, ops: &ops };
                        scope(Vec::<u16>::new(), |c| r.run::<u16, _>(c));
                        let mut r = Run { ctx: &mut *ctx, name: "&mut Vec", n0: 0, spare: 0, ops: &ops };
                        scope(&mut Vec::<u16>::new(), |c| r.run::<u16, _>(c));
                    });
                }
            }));
        }
        // long containers: every element compared
        for n in t.pick(vec![], vec![255, 256, 257, 65535, 65536, 65537, 131_075], vec![255, 256, 257, 65535, 65536, 65537, 131_075, 1 << 20]) {
            us.push(unit(format!("long, {}", n), move |ctx| {
                fn go<'id, T: Elem + PartialEq, A: Grow<T>>(ctx: &mut Ctx, name: &str, n: usize, p: usize, mut m: Vec<usize>, c: Container<'id, A>) {
                    let d = |s: &str| format!("{} of {} x {}: insert at {}, push, insert at {}, push: {}", name, n, T::NAME, p, p, s);
                    ctx.case(|| d(""));
                    ctx.transitions += 4;
                    ctx.states += 1;
                    ctx.nontrivial += 1;
                    let e = c.vet_range(p..p).unwrap_or_else(|_| fail(d("refused"))).first();
                    let last = c.vet(n - 1).ok().unwrap();
                    let mut c = c.only_index();
                    let same = |c: &Container<'id, A, OnlyIndex>, m: &[usize], s: &str| {
                        let v = A::slice(c, c.range()).unwrap();
                        if c.len() != m.len() || v.len() != m.len() { fail(d(&format!("length is {} after {}", v.len(), s))); }
                        if let Some(i) = (0..m.len()).find(|&i| v[i].id() != T::mk_id(m[i])) { fail(d(&format!("element {} is wrong after {}", i, s))); }
                        if c[last].id() != T::mk_id(m[n - 1]) { fail(d(&format!("an older index reads a wrong element after {}", s))); }
                    };
                    c.insert(e, T::mk(7));
                    m.insert(p, 7);
                    same(&c, &m, "insert");
                    let i = c.push(T::mk(8));
                    m.push(8);
                    ctx.ck(i.integer() == n + 1, || d(&format!("push returned {}", i.integer())));
                    same(&c, &m, "push");
                    match c.vet(p) { Ok(j) => c.insert(j, T::mk(9)), Err(_) => fail(d("vet refused")) }
                    m.insert(p, 9);
                    let j = c.push(T::mk(10));
                    m.push(10);
                    ctx.ck(j.integer() == n + 3 && c[j].id() == T::mk_id(10) && c[i].id() == T::mk_id(m[n + 1]), || d(&format!("push returned {}", j.integer())));
                    same(&c, &m, "the second push");
                    ctx.obs(&(n, p, j.integer()));
                }
                fn typed<T: Elem + PartialEq>(ctx: &mut Ctx, n: usize) {
                    for p in [0, 1, n / 2, 254, 255, 256, 65534, 65535, 65536, n - 1, n] {
                        if p > n { continue; }
                        let m: Vec<usize> = (0..n).collect();
                        scope(vec::<T>(n, 0), |c| go::<T, _>(ctx, "Vec", n, p, m.clone(), c));
                        scope(&mut vec::<T>(n, 3), |c| go::<T, _>(ctx, "&mut Vec", n, p, m.clone(), c));
                        scope(&mut &mut vec::<T>(n, 3), |c| go::<T, _>(ctx, "&mut &mut Vec", n, p, m, c));
                    }
                }
                typed::<u8>(ctx, n);
                typed::<u32>(ctx, n);
                typed::<B3>(ctx, n);
            }));
        }
        // lengths at the limits of the integers
        us.push(unit("zero-sized, boundary lengths", move |ctx| {
            for n in closures::big_lengths(t) {
                if n > usize::MAX - 4 { continue; }
                let ps = gen::points(n);
                for &p in &ps {
                    let mut v: Vec<()> = Vec::new();
                    unsafe { v.set_len(n) };
                    ctx.case(|| format!("Vec of {} zero-sized: push, insert at {}, push", n, p));
                    scope(v, |c| {
                        let e = c.vet_range(p..p).unwrap_or_else(|_| fail(format!("{} zero-sized: vet_range({}..{}) refused", n, p, p))).first();
                        let old = c.vet(p).ok();
                        let all = c.range();
                        let mut c = c.only_index();
                        let i = c.push(());
                        ctx.ck(i.integer() == n && c.len() == n + 1, || format!("{} zero-sized: push returned {}, length {}", n, i.integer(), c.len()));
                        c.insert(e, ());
                        ctx.ck(c.len() == n + 2, || format!("{} zero-sized: length {} after an insertion", n, c.len()));
                        if let Some(o) = old { c.insert(o, ()); } else { c.insert(i, ()); }
                        let j = c.push(());
                        ctx.ck(j.integer() == n + 3 && c.len() == n + 4, || format!("{} zero-sized: push returned {}, length {}", n, j.integer(), c.len()));
                        let () = c[i];
                        let () = c[j];
                        ctx.ck(c[all].len() == n && c[c.range()].len() == n + 4 && c.vet(n + 4).is_err() && c.vet(n + 3).is_ok(), || format!("{} zero-sized: access after growth", n));
                        ctx.obs(&(n, p));
                        ctx.transitions += 4;
                        ctx.nontrivial += 1;
                        ctx.states += 1;
                    });
                }
            }
        }));
        us
    }
}

fn main() {
    #[cfg(feature = "std")]
    mc::harness_main(go::units);
    #[cfg(not(feature = "std"))]
    mc::harness_main(|_| vec![]);
}
