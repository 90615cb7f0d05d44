//! The closure of all pointer operations.
#[cfg(feature = "ptr")]
mod go {
    use indexing::container_traits::*;
    use indexing::pointer::{PIndex, PRange, PSlice, PointerRange};
    use indexing::proof::Provable;
    use indexing::{scope, Container, NonEmpty, Unknown};
    use mc::elem::*;
    use mc::*;
    use std::collections::HashSet;

    /// An observed value; positions are element offsets (None: not a whole number of elements).
    #[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
    pub enum P {
        I(bool, Option<isize>),
        R(bool, Option<isize>, Option<isize>),
        S(bool, Option<isize>, usize),
        B(bool),
        N(usize),
        Err,
    }
    impl P {
        fn same(&self, o: &P) -> bool {
            match (*self, *o) {
                (P::I(_, a), P::I(_, b)) => a == b,
                (P::R(_, a, b), P::R(_, c, d)) => (a, b) == (c, d),
                (P::S(_, a, b), P::S(_, c, d)) => (a, b) == (c, d),
                (a, b) => a == b,
            }
        }
    }
    fn o_<T>(base: *const T, p: *const T) -> Option<isize> { off(base, p) }

    pub enum Part<'id, T> {
        INe(PIndex<'id, T>),
        IUk(PIndex<'id, T, Unknown>),
        RNe(PRange<'id, T, NonEmpty>),
        RUk(PRange<'id, T>),
        SNe(PSlice<'id, T, NonEmpty>),
        SUk(PSlice<'id, T>),
    }
    impl<'id, T> Clone for Part<'id, T> { fn clone(&self) -> Self { *self } }
    impl<'id, T> Copy for Part<'id, T> {}

    pub trait Mk: Tag + Sized {
        fn i<'id, T>(p: PIndex<'id, T, Self>) -> Part<'id, T>;
        fn r<'id, T>(p: PRange<'id, T, Self>) -> Part<'id, T>;
        fn s<'id, T>(p: PSlice<'id, T, Self>) -> Part<'id, T>;
    }
    impl Mk for NonEmpty {
        fn i<'id, T>(p: PIndex<'id, T, Self>) -> Part<'id, T> { Part::INe(p) }
        fn r<'id, T>(p: PRange<'id, T, Self>) -> Part<'id, T> { Part::RNe(p) }
        fn s<'id, T>(p: PSlice<'id, T, Self>) -> Part<'id, T> { Part::SNe(p) }
    }
    impl Mk for Unknown {
        fn i<'id, T>(p: PIndex<'id, T, Self>) -> Part<'id, T> { Part::IUk(p) }
        fn r<'id, T>(p: PRange<'id, T, Self>) -> Part<'id, T> { Part::RUk(p) }
        fn s<'id, T>(p: PSlice<'id, T, Self>) -> Part<'id, T> { Part::SUk(p) }
    }
    fn vi<T, Q: Tag>(b: *const T, p: PIndex<T, Q>) -> P { P::I(Q::NE, o_(b, p.ptr())) }
    fn vr<T, Q: Tag>(b: *const T, r: PRange<T, Q>) -> P { P::R(Q::NE, o_(b, r.first().ptr()), o_(b, r.past_the_end().ptr())) }
    fn vs<T, Q: Tag>(b: *const T, r: PSlice<T, Q>) -> P { P::S(Q::NE, o_(b, r.first().ptr()), r.len()) }
    impl<'id, T> Part<'id, T> {
        fn v(&self, b: *const T) -> P {
            match *self {
                Part::INe(p) => vi(b, p),
                Part::IUk(p) => vi(b, p),
                Part::RNe(p) => vr(b, p),
                Part::RUk(p) => vr(b, p),
                Part::SNe(p) => vs(b, p),
                Part::SUk(p) => vs(b, p),
            }
        }
    }

    pub struct Out<'id, T> { base: *const T, v: Vec<P>, p: Vec<Part<'id, T>> }
    impl<'id, T> Out<'id, T> {
        fn put(&mut self, p: Part<'id, T>) -> &mut Self { self.v.push(p.v(self.base)); self.p.push(p); self }
        fn i<Q: Mk>(&mut self, p: PIndex<'id, T, Q>) -> &mut Self { self.put(Q::i(p)) }
        fn r<Q: Mk>(&mut self, p: PRange<'id, T, Q>) -> &mut Self { self.put(Q::r(p)) }
        fn s<Q: Mk>(&mut self, p: PSlice<'id, T, Q>) -> &mut Self { self.put(Q::s(p)) }
        fn b(&mut self, b: bool) -> &mut Self { self.v.push(P::B(b)); self }
        fn n(&mut self, n: usize) -> &mut Self { self.v.push(P::N(n)); self }
        fn err(&mut self) -> &mut Self { self.v.push(P::Err); self }
    }

    pub struct Eng<'a, 'id, T> {
        ctx: &'a mut Ctx,
        name: &'static str,
        n: usize,
        base: *const T,
        closure: bool,
        /// lengths of scans to try
        scans: Vec<usize>,
        out: Out<'id, T>,
        seen: HashSet<P>,
        all: Vec<Part<'id, T>>,
        work: Vec<Part<'id, T>>,
    }

    macro_rules! op {
        ($e:expr, $name:expr, $args:expr, $exp:expr, $body:expr) => {{
            let args = $args;
            let (n, nm) = ($e.n, $e.name);
            $e.ctx.case(|| format!("{} of {} x {}: {}{:?}", nm, n, T::NAME, $name, args));
            $e.out.v.clear();
            $e.out.p.clear();
            #[allow(clippy::redundant_closure_call)]
            ($body)(&mut $e.out);
            $e.judge($name, &args, &$exp);
        }};
    }
    fn i_(x: usize) -> P { P::I(false, Some(x as isize)) }
    fn r_(a: usize, b: usize) -> P { P::R(false, Some(a as isize), Some(b as isize)) }
    fn s_(a: usize, b: usize) -> P { P::S(false, Some(a as isize), b - a) }

    impl<'a, 'id, T: Elem> Eng<'a, 'id, T> {
        fn judge(&mut self, what: &str, args: &[P], exp: &[P]) {
            self.ctx.transitions += 1;
            let n = self.n as isize;
            let got = &self.out.v;
            let exact = got.len() == exp.len() && got.iter().zip(exp).all(|(a, b)| a.same(b));
            let unmarked_lie = got.iter().any(|v| match *v {
                P::I(true, Some(i)) => i < 0 || i >= n,
                P::R(true, Some(a), Some(b)) => a >= b,
                P::S(true, _, l) => l == 0,
                _ => false,
            });
            if !exact || unmarked_lie {
                fail(format!("{} of {} x {}: {}{:?} gave {:?}; expected {:?} (I(marked, position), R(marked, start, end), S(marked, start, length))", self.name, self.n, T::NAME, what, args, got, exp));
            }
            self.ctx.nontrivial += got.iter().any(|v| !matches!(v, P::Err | P::B(false))) as u64;
            let g = (what.len(), got.clone(), args.to_vec());
            self.ctx.obs(&g);
            if self.closure {
                for k in 0..self.out.p.len() { let p = self.out.p[k]; self.add(p); }
            }
        }
        fn add(&mut self, p: Part<'id, T>) {
            if self.seen.insert(p.v(self.base)) {
                self.all.push(p);
                self.work.push(p);
                self.ctx.states += 1;
            }
        }
    }

    /// `seeds`: positions to start from (all ranges between them); empty: from the container only, to a fixed point.
    pub fn explore<'id, T: Elem, A: Contiguous<Item = T>>(ctx: &mut Ctx, name: &'static str, c: &Container<'id, A>, base: *const T, seeds: &[usize], scans: Vec<usize>) {
        let n = c.len();
        let mut e = Eng { ctx, name, n, base, closure: seeds.is_empty(), scans, out: Out { base, v: vec![], p: vec![] }, seen: HashSet::new(), all: vec![], work: vec![] };
        let e = &mut e;
        op!(e, "pointer_range", [], [r_(0, n)], |o: &mut Out<'id, T>| { o.r(c.pointer_range()); });
        op!(e, "pointer_slice", [], [s_(0, n)], |o: &mut Out<'id, T>| { o.s(c.pointer_slice()); });
        op!(e, "pointer_range_of(..)", [], [r_(0, n)], |o: &mut Out<'id, T>| { o.r(c.pointer_range_of::<Unknown, _>(..)); });
        // start: pointers at the seeds, through the iterator, and everything between them
        let mut pts: Vec<PIndex<'id, T, Unknown>> = vec![];
        for &s in seeds {
            if s < n {
                let p = c.pointer_range().into_iter().nth(s).unwrap_or_else(|| fail(format!("{} of {}: iterator ends before {}", name, n, s)));
                e.add(Part::INe(p));
                e.add(Part::IUk(p.no_proof()));
                pts.push(p.no_proof());
            } else {
                pts.push(c.pointer_range().past_the_end());
                e.add(Part::IUk(c.pointer_range().past_the_end()));
            }
        }
        for &a in &pts { for &b in &pts {
            if let Ok(r) = c.nonempty_range(a, b) {
                e.add(Part::RNe(r));
                e.add(Part::RUk(r.no_proof()));
                e.add(Part::SNe(r.into()));
                e.add(Part::SUk(r.no_proof().into()));
            }
        } }
        while let Some(p) = e.work.pop() {
            match p {
                Part::INe(i) => {
                    let x = o_(base, i.ptr()).unwrap() as usize;
                    op!(e, "after", [vi(base, i)], [i_(x + 1)], |o: &mut Out<'id, T>| { o.i(i.after()); });
                    idx(e, c, i)
                }
                Part::IUk(i) => idx(e, c, i),
                Part::RNe(r) => { range_ne(e, r); range(e, c, r) }
                Part::RUk(r) => range(e, c, r),
                Part::SNe(r) => { slice_ne(e, r); slice(e, r) }
                Part::SUk(r) => slice(e, r),
            }
            let mut k = 0;
            while k < e.all.len() {
                let q = e.all[k];
                pair(e, c, p, q);
                pair(e, c, q, p);
                k += 1;
            }
        }
    }

    fn pair<'id, T: Elem, A: Contiguous<Item = T>>(e: &mut Eng<'_, 'id, T>, c: &Container<'id, A>, p: Part<'id, T>, q: Part<'id, T>) {
        fn ii<'id, T: Elem, A: Contiguous<Item = T>, X: Mk, Y: Mk>(e: &mut Eng<'_, 'id, T>, c: &Container<'id, A>, a: PIndex<'id, T, X>, b: PIndex<'id, T, Y>) {
            let base = e.base;
            let (x, y) = (o_(base, a.ptr()).unwrap() as usize, o_(base, b.ptr()).unwrap() as usize);
            op!(e, "nonempty_range", [vi(base, a), vi(base, b)], [if x < y { r_(x, y) } else { P::Err }], |o: &mut Out<'id, T>| {
                match c.nonempty_range(a, b) { Ok(r) => o.r(r), Err(_) => o.err() };
            });
        }
        match (p, q) {
            (Part::INe(a), Part::INe(b)) => ii(e, c, a, b),
            (Part::INe(a), Part::IUk(b)) => ii(e, c, a, b),
            (Part::IUk(a), Part::INe(b)) => ii(e, c, a, b),
            (Part::IUk(a), Part::IUk(b)) => ii(e, c, a, b),
            _ => {}
        }
    }

    fn idx<'id, T: Elem, A: Contiguous<Item = T>, Q: Mk>(e: &mut Eng<'_, 'id, T>, c: &Container<'id, A>, i: PIndex<'id, T, Q>) {
        let (n, base) = (e.n, e.base);
        let x = o_(base, i.ptr()).unwrap() as usize;
        let a = [vi(base, i)];
        op!(e, "no_proof", a, [i_(x)], |o: &mut Out<'id, T>| { o.i(Provable::no_proof(i)); });
        op!(e, "ptr_mut", a, [P::B(true)], |o: &mut Out<'id, T>| { o.b(i.ptr_mut() as *const T == i.ptr()); });
        op!(e, "distance_to", a, [P::N(x)], |o: &mut Out<'id, T>| { o.n(c.distance_to(i)); });
        op!(e, "pointer_range_of(i..)", a, [r_(x, n)], |o: &mut Out<'id, T>| { o.r(c.pointer_range_of(i..)); });
        op!(e, "pointer_range_of(..i)", a, [r_(0, x)], |o: &mut Out<'id, T>| { o.r(c.pointer_range_of(..i)); });
        op!(e, "split_at_pointer", a, [r_(0, x), r_(x, n)], |o: &mut Out<'id, T>| {
            let (p, q) = c.split_at_pointer(i);
            o.r(p).r(q);
        });
        for k in e.scans.clone() {
            if k > x { continue; }
            // accept k elements, then refuse
            op!(e, "scan_tail_", [a[0], P::N(k)], [r_(x - k, n.min(x + 1)), P::B(true)], |o: &mut Out<'id, T>| {
                let mut m = 0;
                let mut ok = true;
                let r = c.scan_tail_(i, |y| {
                    m += 1;
                    ok &= m <= k + 1 && m <= x && o_(base, y as *const T) == Some((x - m) as isize);
                    m <= k
                });
                o.r(r).b(ok && m == (k + 1).min(x));
            });
        }
    }
    fn range<'id, T: Elem, A: Contiguous<Item = T>, Q: Mk>(e: &mut Eng<'_, 'id, T>, c: &Container<'id, A>, r: PRange<'id, T, Q>) {
        let base = e.base;
        let a = [vr(base, r)];
        let (s, z) = match a[0] { P::R(_, Some(s), Some(z)) => (s as usize, z as usize), _ => unreachable!() };
        let l = z - s;
        op!(e, "range len", a, [P::N(l)], |o: &mut Out<'id, T>| { o.n(r.len()); });
        op!(e, "range is_empty", a, [P::B(l == 0)], |o: &mut Out<'id, T>| { o.b(r.is_empty()); });
        op!(e, "range nonempty", a, [if l > 0 { r_(s, z) } else { P::Err }], |o: &mut Out<'id, T>| { match r.nonempty() { Ok(r) => o.r(r), Err(_) => o.err() }; });
        op!(e, "range split_in_half", a, [r_(s, s + l / 2), r_(s + l / 2, z)], |o: &mut Out<'id, T>| { let (p, q) = r.split_in_half(); o.r(p).r(q); });
        op!(e, "range first", a, [i_(s)], |o: &mut Out<'id, T>| { o.i(r.first()); });
        op!(e, "range upper_middle", a, [i_(s + l / 2)], |o: &mut Out<'id, T>| { o.i(r.upper_middle()); });
        op!(e, "range past_the_end", a, [i_(z)], |o: &mut Out<'id, T>| { o.i(r.past_the_end()); });
        op!(e, "range no_proof", a, [r_(s, z)], |o: &mut Out<'id, T>| { o.r(Provable::no_proof(r)); });
        op!(e, "range into slice", a, [s_(s, z)], |o: &mut Out<'id, T>| { o.s(PSlice::from(r)); });
        op!(e, "PointerRange", a, [i_(s), i_(z), P::N(l)], |o: &mut Out<'id, T>| {
            o.i(PointerRange::first(r)).i(PointerRange::end(r)).n(PointerRange::len(r));
        });
        op!(e, "into_iter first, last, rest", a, if l == 0 { vec![P::Err, P::Err, r_(s, z)] } else if l == 1 { vec![i_(s), P::Err, r_(z, z)] } else { vec![i_(s), i_(z - 1), r_(s + 1, z - 1)] }, |o: &mut Out<'id, T>| {
            let mut it = r.into_iter();
            match it.next() { Some(p) => o.i(p), None => o.err() };
            match it.next_back() { Some(p) => o.i(p), None => o.err() };
            o.r(it.into_range());
        });
        for k in e.scans.clone() {
            if k > l { continue; }
            op!(e, "scan_pointer_range", [a[0], P::N(k)], [r_(s, s + k), r_(s + k, z), P::B(true)], |o: &mut Out<'id, T>| {
                let mut m = 0;
                let mut ok = true;
                let (p, q) = c.scan_pointer_range(r, |y| {
                    ok &= m <= k && o_(base, y as *const T) == Some((s + m) as isize);
                    m += 1;
                    m <= k
                });
                o.r(p).r(q).b(ok && m == (k + 1).min(l));
            });
            op!(e, "scan_pointer_range_rev", [a[0], P::N(k)], [r_(s, z - k), r_(z - k, z), P::B(true)], |o: &mut Out<'id, T>| {
                let mut m = 0;
                let mut ok = true;
                let (p, q) = c.scan_pointer_range_rev(r, |y| {
                    m += 1;
                    ok &= m <= k + 1 && m <= l && o_(base, y as *const T) == Some((z - m) as isize);
                    m <= k
                });
                o.r(p).r(q).b(ok && m == (k + 1).min(l));
            });
        }
    }
    fn range_ne<'id, T: Elem>(e: &mut Eng<'_, 'id, T>, r: PRange<'id, T, NonEmpty>) {
        let a = [vr(e.base, r)];
        let (s, z) = match a[0] { P::R(_, Some(s), Some(z)) => (s as usize, z as usize), _ => unreachable!() };
        op!(e, "range last", a, [i_(z - 1)], |o: &mut Out<'id, T>| { o.i(r.last()); });
        op!(e, "range tail", a, [r_(s + 1, z)], |o: &mut Out<'id, T>| { o.r(r.tail()); });
        op!(e, "range init", a, [r_(s, z - 1)], |o: &mut Out<'id, T>| { o.r(r.init()); });
        let can = z - s > 1;
        op!(e, "range advance", a, [P::B(can), if can { r_(s + 1, z) } else { r_(s, z) }], |o: &mut Out<'id, T>| { let mut q = r; let b = q.advance(); o.b(b).r(q); });
        op!(e, "range advance_back", a, [P::B(can), if can { r_(s, z - 1) } else { r_(s, z) }], |o: &mut Out<'id, T>| { let mut q = r; let b = q.advance_back(); o.b(b).r(q); });
    }
    fn slice<'id, T: Elem, Q: Mk>(e: &mut Eng<'_, 'id, T>, r: PSlice<'id, T, Q>) {
        let a = [vs(e.base, r)];
        let (s, l) = match a[0] { P::S(_, Some(s), l) => (s as usize, l), _ => unreachable!() };
        let z = s + l;
        op!(e, "slice is_empty", a, [P::B(l == 0)], |o: &mut Out<'id, T>| { o.b(r.is_empty()); });
        op!(e, "slice nonempty", a, [if l > 0 { s_(s, z) } else { P::Err }], |o: &mut Out<'id, T>| { match r.nonempty() { Ok(r) => o.s(r), Err(_) => o.err() }; });
        op!(e, "slice split_in_half", a, [s_(s, s + l / 2), s_(s + l / 2, z)], |o: &mut Out<'id, T>| { let (p, q) = r.split_in_half(); o.s(p).s(q); });
        op!(e, "slice first", a, [i_(s)], |o: &mut Out<'id, T>| { o.i(r.first()); });
        op!(e, "slice upper_middle", a, [i_(s + l / 2)], |o: &mut Out<'id, T>| { o.i(r.upper_middle()); });
        op!(e, "slice past_the_end", a, [i_(z)], |o: &mut Out<'id, T>| { o.i(r.past_the_end()); });
        op!(e, "slice no_proof", a, [s_(s, z)], |o: &mut Out<'id, T>| { o.s(Provable::no_proof(r)); });
        op!(e, "slice into range", a, [r_(s, z)], |o: &mut Out<'id, T>| { o.r(PRange::from(r)); });
        op!(e, "PointerRange", a, [i_(s), i_(z), P::N(l)], |o: &mut Out<'id, T>| {
            o.i(PointerRange::first(r)).i(PointerRange::end(r)).n(PointerRange::len(r));
        });
    }
    fn slice_ne<'id, T: Elem>(e: &mut Eng<'_, 'id, T>, r: PSlice<'id, T, NonEmpty>) {
        let a = [vs(e.base, r)];
        let (s, l) = match a[0] { P::S(_, Some(s), l) => (s as usize, l), _ => unreachable!() };
        let z = s + l;
        op!(e, "slice last", a, [i_(z - 1)], |o: &mut Out<'id, T>| { o.i(r.last()); });
        op!(e, "slice tail", a, [s_(s + 1, z)], |o: &mut Out<'id, T>| { o.s(r.tail()); });
        op!(e, "slice init", a, [s_(s, z - 1)], |o: &mut Out<'id, T>| { o.s(r.init()); });
        let can = l > 1;
        op!(e, "slice advance", a, [P::B(can), if can { s_(s + 1, z) } else { s_(s, z) }], |o: &mut Out<'id, T>| { let mut q = r; let b = q.advance(); o.b(b).s(q); });
        op!(e, "slice advance_back", a, [P::B(can), if can { s_(s, z - 1) } else { s_(s, z) }], |o: &mut Out<'id, T>| { let mut q = r; let b = q.advance_back(); o.b(b).s(q); });
    }

    /// The other kinds of storage. (Kept apart: each pair of storage and element type is compiled anew.)
    fn storages<T: Elem>(us: &mut Vec<Unit>, t: Tier) {
        for n in 0..=t.pick(3, 5, 7) {
            us.push(unit(format!("storages {} n={}", T::NAME, n), move |ctx| {
                let scans: Vec<usize> = (0..=n).collect();
                let mut g = Guarded::<T>::new(n);
                let b = g.mid().as_ptr();
                scope(&g.mid(), |c| explore(ctx, "&&[T]", &c, b, &[], scans.clone()));
                scope(g.mid_mut(), |c| explore(ctx, "&mut [T]", &c, b, &[], scans.clone()));
                scope(&mut g.mid_mut(), |c| explore(ctx, "&mut &mut [T]", &c, b, &[], scans.clone()));
                #[cfg(feature = "std")]
                if mc::vecs() {
                    let mut v: Vec<T> = Vec::with_capacity(n + 3);
                    v.extend((0..n).map(T::mk));
                    let b = v.as_ptr();
                    scope(&v, |c| explore(ctx, "&Vec", &c, b, &[], scans.clone()));
                    scope(&mut v, |c| explore(ctx, "&mut Vec", &c, b, &[], scans.clone()));
                    scope(v, |c| explore(ctx, "Vec", &c, b, &[], scans.clone()));
                }
            }));
        }
    }
    fn typed<T: Elem>(us: &mut Vec<Unit>, t: Tier, max: usize) {
        for n in 0..=max {
            us.push(unit(format!("closure {} n={}", T::NAME, n), move |ctx| {
                let scans: Vec<usize> = (0..=n).collect();
                let g = Guarded::<T>::new(n);
                let b = g.mid().as_ptr();
                scope(g.mid(), |c| explore(ctx, "&[T]", &c, b, &[], scans.clone()));
                if n <= 5 {
                    scope(g.mid(), |c| explore(ctx, "clone of &[T]", &c.clone(), b, &[], scans.clone()));
                }
            }));
        }
        for n in t.pick(vec![], vec![31, 32, 33, 64], vec![31, 32, 33, 63, 64, 65, 100, 128]) {
            us.push(unit(format!("step {} n={}", T::NAME, n), move |ctx| {
                let g = Guarded::<T>::new(n);
                let b = g.mid().as_ptr();
                let seeds: Vec<usize> = (0..=n).collect();
                let scans = vec![0, 1, 2, n / 2, n - 1, n];
                scope(g.mid(), |c| explore(ctx, "&[T]", &c, b, &seeds, scans));
            }));
        }
    }

    extern "C" {
        fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
        fn munmap(a: *mut u8, l: usize) -> i32;
    }
    /// An untouched reservation of address space.
    fn huge<T: Elem>(ctx: &mut Ctx, n: usize) {
        let bytes = n * std::mem::size_of::<T>();
        let p = unsafe { mmap(std::ptr::null_mut(), bytes, 1, 0x4022, -1, 0) };
        if p as isize == -1 { return; }
        {
            let s: &[T] = unsafe { std::slice::from_raw_parts(p as *const T, n) };
            let seeds = gen::points(n);
            // the iterator steps one by one: reach the seeds by halving instead
            scope(s, |c| {
                let base = s.as_ptr();
                let mut e = vec![0, 1, 2, n - 2, n - 1, n];
                e.extend(seeds.iter().copied().filter(|&x| x < 300 || x + 300 > n));
                explore(ctx, "&[T]", &c, base, &[0], vec![0, 1, 2]);
                // halving from the full range reaches the middle of everything
                let mut work = vec![(c.pointer_range(), 0usize, n)];
                let mut left = 4000;
                while let Some((r, a, b)) = work.pop() {
                    if b - a < 2 || left == 0 { continue; }
                    left -= 1;
                    ctx.case(|| format!("{} x {}: {}..{}", n, T::NAME, a, b));
                    ctx.transitions += 8;
                    let m = a + (b - a) / 2;
                    let (x, y) = r.split_in_half();
                    let um = r.upper_middle();
                    let ps = PSlice::from(r);
                    let (u, v) = ps.split_in_half();
                    let ok = vr(base, x).same(&r_(a, m)) && vr(base, y).same(&r_(m, b)) && vi(base, um).same(&i_(m))
                        && vs(base, u).same(&s_(a, m)) && vs(base, v).same(&s_(m, b)) && vi(base, ps.upper_middle()).same(&i_(m))
                        && vi(base, ps.past_the_end()).same(&i_(b)) && vr(base, PRange::from(ps)).same(&r_(a, b))
                        && r.len() == b - a && ps.len() == b - a && c.distance_to(um) == m
                        && vr(base, c.split_at_pointer(um).0).same(&r_(0, m)) && vr(base, c.split_at_pointer(um).1).same(&r_(m, n))
                        && vr(base, c.pointer_range_of(um..)).same(&r_(m, n)) && vr(base, c.pointer_range_of(..um)).same(&r_(0, m))
                        && c.nonempty_range(um, r.past_the_end()).map_or(false, |q| vr(base, q).same(&r_(m, b)))
                        && c.nonempty_range(r.past_the_end(), um).is_err()
                        && ps.nonempty().map_or(false, |q| vi(base, q.last()).same(&i_(b - 1)) && vs(base, q.tail()).same(&s_(a + 1, b)) && vs(base, q.init()).same(&s_(a, b - 1)))
                        && r.nonempty().map_or(false, |q| vi(base, q.last()).same(&i_(b - 1)) && vr(base, q.tail()).same(&r_(a + 1, b)) && vr(base, q.init()).same(&r_(a, b - 1)));
                    if !ok { fail(format!("{} x {}: an operation on {}..{} is off", n, T::NAME, a, b)); }
                    ctx.obs(&(a, b));
                    ctx.states += 1;
                    ctx.nontrivial += 1;
                    // outermost first
                    work.insert(0, (x, a, m));
                    work.insert(0, (y, m, b));
                }
                let _ = e;
            });
        }
        unsafe { munmap(p, bytes) };
    }

    pub fn units(t: Tier) -> Vec<Unit> {
        let mut us = vec![];
        typed::<u8>(&mut us, t, t.pick(5, 12, 16));
        typed::<u32>(&mut us, t, t.pick(5, 10, 14));
        typed::<B3>(&mut us, t, t.pick(5, 10, 14));
        typed::<u16>(&mut us, t, t.pick(4, 8, 10));
        typed::<u64>(&mut us, t, t.pick(4, 8, 10));
        typed::<Big>(&mut us, t, t.pick(4, 8, 10));
        typed::<Al64>(&mut us, t, t.pick(4, 8, 10));
        typed::<Mid>(&mut us, t, t.pick(3, 6, 8));
        typed::<Vast>(&mut us, t, t.pick(3, 6, 8));
        typed::<Tok>(&mut us, t, t.pick(4, 6, 8));
        typed::<Heap>(&mut us, t, t.pick(4, 6, 8));
        storages::<u8>(&mut us, t);
        storages::<B3>(&mut us, t);
        for n in t.pick(vec![], vec![127, 128, 129, 255, 256, 257, 1000, 65535, 65536, 65537], vec![127, 128, 129, 255, 256, 257, 1000, 65535, 65536, 65537, 1 << 20]) {
            us.push(unit(format!("points n={}", n), move |ctx| {
                fn go<T: Elem>(ctx: &mut Ctx, n: usize) {
                    let g = Guarded::<T>::new(n);
                    let b = g.mid().as_ptr();
                    let scans = if n <= 1000 { vec![0, 1, 127, 128, 255, 256, n - 1, n] } else { vec![0, 1, 255, 256, 257] };
                    scope(g.mid(), |c| explore(ctx, "&[T]", &c, b, &gen::points(n), scans));
                }
                go::<u8>(ctx, n);
                go::<B3>(ctx, n);
                go::<Big>(ctx, n);
                go::<Al64>(ctx, n);
            }));
        }
        // slices that lie across an address at which the lower bits start again
        for b in huge::BOUNDARIES {
            us.push(unit(format!("across address {:#x}", b), move |ctx| {
                fn go<T: Elem>(ctx: &mut Ctx, b: usize, n: usize) {
                    for k in 0..=n {
                        huge::across::<T>(b, n, k, |s| {
                            let base = s.as_ptr();
                            scope(&*s, |c| explore(ctx, "&[T]", &c, base, &[], (0..=n).collect()));
                            scope(s, |c| explore(ctx, "&mut [T]", &c, base, &[], (0..=n).collect()));
                        });
                    }
                }
                let n = t.pick(2, 5, 8);
                go::<u8>(ctx, b, n);
                go::<B3>(ctx, b, n);
                go::<u64>(ctx, b, n);
                go::<Al64>(ctx, b, n);
                go::<Mid>(ctx, b, n);
                go::<Vast>(ctx, b, n);
            }));
        }
        us.push(unit("address-space sized", move |ctx| {
            for n in [(1usize << 31) - 1, 1 << 31, (1 << 31) + 1, (1 << 32) - 1, 1 << 32, (1 << 32) + 1] {
                huge::<u8>(ctx, n);
                huge::<B3>(ctx, n);
                huge::<u64>(ctx, n);
                huge::<Big>(ctx, n);
            }
            huge::<u8>(ctx, (1 << 40) + 3);
            huge::<u16>(ctx, (1 << 40) + 3);
        }));
        us
    }
}

fn main() {
    #[cfg(feature = "ptr")]
    mc::harness_main(go::units);
    #[cfg(not(feature = "ptr"))]
    mc::harness_main(|_| vec![]);
}
