//! Access through pointers.
#[cfg(feature = "ptr")]
mod go {
    use indexing::container_traits::*;
    use indexing::pointer::{zip, PIndex, PRange, PSlice};
    use indexing::{scope, Container, NonEmpty, Unknown};
    use mc::elem::*;
    use mc::store::OnlyIndex;
    use mc::*;

    type Sp = (usize, usize);

    /// All pointers of a container: the elements, then the end.
    fn pts<'id, T, A: Contiguous<Item = T>>(c: &Container<'id, A>) -> (Vec<PIndex<'id, T>>, Vec<PIndex<'id, T, Unknown>>) {
        use indexing::proof::Provable;
        let ne: Vec<_> = c.pointer_range().into_iter().collect();
        let mut uk: Vec<_> = ne.iter().map(|p| p.no_proof()).collect();
        uk.push(c.pointer_range().past_the_end());
        if ne.len() != c.len() { fail(format!("the pointer range of {} elements has {}", c.len(), ne.len())); }
        (ne, uk)
    }
    /// a..b as pointer range, unmarked
    fn pr<'id, T, A: Contiguous<Item = T>>(c: &Container<'id, A>, uk: &[PIndex<'id, T, Unknown>], a: usize, b: usize) -> PRange<'id, T> {
        use indexing::proof::Provable;
        if a == b { c.pointer_range_of(uk[a]..).into_iter().into_range().pipe(|r| c.scan_pointer_range(r, |_| false).0) }
        else { c.nonempty_range(uk[a], uk[b]).unwrap_or_else(|_| fail(format!("nonempty_range of {} and {} refused", a, b))).no_proof() }
    }
    trait Pipe: Sized { fn pipe<R>(self, f: impl FnOnce(Self) -> R) -> R { f(self) } }
    impl<X> Pipe for X {}

    fn reads<'id, T: Elem, A: Contiguous<Item = T>>(ctx: &mut Ctx, name: &str, c: &Container<'id, A>, base: *const T, n: usize) {
        let d = |m: String| format!("{} of {} x {}: {}", name, n, T::NAME, m);
        ctx.case(|| d("reads".into()));
        let (ne, uk) = pts(c);
        let mut sl = |s: &[T], a: usize, b: usize, what: &dyn Fn() -> String| {
            ctx.transitions += 1;
            ctx.nontrivial += (b > a) as u64;
            if !is_sub(base, s, a, b - a) { fail(d(format!("{} is {} elements at offset {:?} instead of {}..{}", what(), s.len(), off(base, s.as_ptr()), a, b))); }
            for (k, x) in s.iter().enumerate() { if x.id() != T::mk_id(a + k) { fail(d(format!("element {} of {} is {}", k, what(), x.id()))); } }
            ctx.obs(&(a, b));
        };
        for i in 0..=n {
            sl(&c[uk[i]..], i, n, &|| format!("c[{}..] (edge pointer)", i));
            sl(&c[..uk[i]], 0, i, &|| format!("c[..{}] (edge pointer)", i));
            if i < n {
                sl(&c[ne[i]..], i, n, &|| format!("c[{}..]", i));
                sl(&c[..ne[i]], 0, i, &|| format!("c[..{}]", i));
                sl(std::slice::from_ref(&c[ne[i]]), i, i + 1, &|| format!("c[{}]", i));
            }
            for j in i..=n {
                let r = pr(c, &uk, i, j);
                sl(&c[r], i, j, &|| format!("c[{}..{}]", i, j));
                if let Ok(q) = r.nonempty() { sl(&c[q], i, j, &|| format!("c[{}..{}] (marked)", i, j)); }
            }
        }
        ctx.states += 1;
    }

    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
    pub enum W {
        Range(usize, usize, bool),
        From(usize, bool),
        To(usize, bool),
        Swap(usize, usize),
        Rotate(usize, usize),
        /// split, then write both halves through everything the callback is given
        Split(usize, bool),
        /// split, exchange ends of the halves by swapping inside each, and split each again
        SplitTwice(usize, usize, usize),
    }
    fn all(n: usize) -> Vec<W> {
        let mut v = vec![];
        for a in 0..=n {
            v.extend([W::From(a, false), W::To(a, false), W::Split(a, false)]);
            if a < n { v.extend([W::From(a, true), W::To(a, true), W::Split(a, true)]); }
            for b in 0..=a { for x in a..=n { v.push(W::SplitTwice(a, b, x)); } }
            for b in a..=n { v.push(W::Range(a, b, false)); if a < b { v.extend([W::Range(a, b, true), W::Rotate(a, b)]); } }
            for b in 0..n { if a < n { v.push(W::Swap(a, b)); } }
        }
        v
    }
    const F: usize = 200;

    /// What the callback of a split gets: both halves must be whole containers over the two parts.
    fn half<'id, T: Elem, Q: Tag>(d: &dyn Fn(String) -> String, c: &Container<'id, &mut [T]>, r: PRange<'id, T, Q>, base: *const T, a: usize, b: usize, which: &str) {
        if c.len() != b - a { fail(d(format!("{} half has length {} instead of {}", which, c.len(), b - a))); }
        if !is_sub(base, &c[..], a, b - a) { fail(d(format!("{} half is at offset {:?}", which, off(base, c[..].as_ptr())))); }
        if !is_sub(base, &c[r], a, b - a) || r.len() != b - a { fail(d(format!("{} range is {} elements at offset {:?}", which, r.len(), off(base, r.first().ptr())))); }
        if Q::NE && a == b { fail(d(format!("{} range is empty but marked", which))); }
        let p = c.pointer_range();
        if p != r { fail(d(format!("{} range differs from the half's pointer range", which))); }
    }
    fn put<T: Elem>(s: &mut [T], k: usize) { for (i, x) in s.iter_mut().enumerate() { *x = T::mk(F + k + i); } }

    pub fn write<'id, T: Elem, A: ContiguousMut<Item = T>>(ctx: &mut Ctx, name: &str, c: &mut Container<'id, A>, base: *const T, n: usize, w: W, m: &mut Vec<usize>) {
        let d = |s: String| format!("{} of {} x {}: {:?}: {}", name, n, T::NAME, w, s);
        ctx.transitions += 1;
        let (ne, uk) = pts(c);
        let sub = |s: &[T], a: usize, b: usize| if !is_sub(base, s, a, b - a) { fail(d(format!("is {} elements at offset {:?}", s.len(), off(base, s.as_ptr())))) };
        match w {
            W::Range(a, b, mk) => {
                let r = pr(c, &uk, a, b);
                let s = if mk { &mut c[r.nonempty().unwrap_or_else(|_| fail(d("nonempty refused".into())))] } else { &mut c[r] };
                sub(s, a, b);
                put(s, a);
                for i in a..b { m[i] = F + i; }
            }
            W::From(a, mk) => {
                let s = if mk { &mut c[ne[a]..] } else { &mut c[uk[a]..] };
                sub(s, a, n);
                put(s, a);
                for i in a..n { m[i] = F + i; }
            }
            W::To(a, mk) => {
                let s = if mk { &mut c[..ne[a]] } else { &mut c[..uk[a]] };
                sub(s, 0, a);
                put(s, 0);
                for i in 0..a { m[i] = F + i; }
            }
            W::Swap(a, b) => { c.swap_ptr(ne[a], ne[b]); m.swap(a, b); }
            W::Rotate(a, b) => {
                let r = c.nonempty_range(uk[a], uk[b]).unwrap_or_else(|_| fail(d("nonempty_range refused".into())));
                c.rotate1_prange(r);
                m[a..b].rotate_right(1);
            }
            W::Split(a, mk) => {
                fn go<T: Elem, Q: Tag>(d: &dyn Fn(String) -> String, base: *const T, n: usize, a: usize, mut x: Container<'_, &mut [T]>, rx: PRange<'_, T>, mut y: Container<'_, &mut [T]>, ry: PRange<'_, T, Q>) -> usize {
                    panic_free(d, || {
                        if x.len() != a || y.len() != n - a { fail(d(format!("halves have lengths {} and {}", x.len(), y.len()))); }
                    });
                    let _ = (&mut x, &mut y, rx, ry, base);
                    a * 1000 + n
                }
                let out = if mk {
                    c.split_container_at_pointer(ne[a], |mut x, rx, mut y, ry| {
                        half(&d, &x, rx, base, 0, a, "first");
                        half(&d, &y, ry, base, a, n, "second");
                        if !is_at(base, &y[ry.first()], a) { fail(d("the second half's first element is elsewhere".into())); }
                        put(&mut y[ry], a);
                        put(&mut x[rx], 0);
                        go(&d, base, n, a, x, rx, y, ry)
                    })
                } else {
                    c.split_container_at_pointer(uk[a], |mut x, rx, mut y, ry| {
                        half(&d, &x, rx, base, 0, a, "first");
                        half(&d, &y, ry, base, a, n, "second");
                        put(&mut y[..], a);
                        put(&mut x[..], 0);
                        go(&d, base, n, a, x, rx, y, ry)
                    })
                };
                if out != a * 1000 + n { fail(d("the callback's result is lost".into())); }
                for i in 0..n { m[i] = F + i; }
            }
            W::SplitTwice(a, b, z) => {
                let mut calls = 0;
                c.split_container_at_pointer(uk[a], |mut x, rx, mut y, ry| {
                    half(&d, &x, rx, base, 0, a, "first");
                    half(&d, &y, ry, base, a, n, "second");
                    let (_, ux) = pts(&x);
                    let (ney, uy) = pts(&y);
                    x.split_container_at_pointer(ux[b], |p, rp, mut q, rq| {
                        half(&d, &p, rp, base, 0, b, "first of the first");
                        half(&d, &q, rq, base, b, a, "second of the first");
                        put(&mut q[rq], b);
                        calls += 1;
                    });
                    if ney.len() > 1 { y.swap_ptr(ney[0], ney[ney.len() - 1]); }
                    y.split_container_at_pointer(uy[z - a], |mut p, rp, q, rq| {
                        half(&d, &p, rp, base, a, z, "first of the second");
                        half(&d, &q, rq, base, z, n, "second of the second");
                        if let Ok(r) = rp.nonempty() { p.rotate1_prange(r); }
                        calls += 1;
                    });
                });
                if calls != 2 { fail(d(format!("{} of 2 callbacks ran", calls))); }
                for i in b..a { m[i] = F + i; }
                if n - a > 1 { m.swap(a, n - 1); }
                if z > a { m[a..z].rotate_right(1); }
            }
        }
        let got = store::ids(base, n);
        let want = store::want_ids::<T>(m.iter().copied());
        if got != want { fail(d(format!("elements are now {:?} instead of {:?}", got, want))); }
        ctx.obs(&(w, &got));
        ctx.nontrivial += 1;
    }
    fn panic_free(_: &dyn Fn(String) -> String, f: impl FnOnce()) { f() }

    struct V<'a> { ctx: &'a mut Ctx, ws: Vec<W> }
    impl<T: Elem> store::Mutable<T> for V<'_> {
        fn begin(&mut self) { live_reset() }
        fn visit<'id, A>(&mut self, name: &'static str, c: &mut Container<'id, A>, base: *const T, n: usize)
        where A: ContiguousMut<Item = T> + GetUncheckedMut {
            let ws = &self.ws;
            self.ctx.case(|| format!("{} of {} x {}: {:?}", name, n, T::NAME, ws));
            let mut m: Vec<usize> = (0..n).collect();
            self.ctx.states += 1;
            for &w in &self.ws { write(self.ctx, name, c, base, n, w, &mut m); }
        }
        fn visit_only<'id, A>(&mut self, _: &'static str, _: &mut Container<'id, A, OnlyIndex>, _: *const T, _: usize)
        where A: ContiguousMut<Item = T> + GetUncheckedMut {}
        fn done(&mut self, name: &'static str, n: usize, ok: bool) {
            let w = &self.ws;
            self.ctx.ck(ok, || format!("{} of {} x {}: {:?} changed an element outside the container", name, n, T::NAME, w));
        }
    }
    fn dropped(d: &dyn Fn() -> String) {
        if let Some((i, c)) = live_bad(0, 0) { fail(format!("{}: id {} is live {} times after everything was dropped", d(), i, c)); }
    }

    /// One range of one of the two containers of a zip.
    #[derive(Clone, Copy)]
    enum R<'id, T> { Uk(PRange<'id, T>), Ne(PRange<'id, T, NonEmpty>), Sk(PSlice<'id, T>), Se(PSlice<'id, T, NonEmpty>) }
    fn kinds<'id, T: Copy>(r: PRange<'id, T>) -> Vec<R<'id, T>> {
        let mut v = vec![R::Uk(r), R::Sk(r.into())];
        if let Ok(q) = r.nonempty() { v.extend([R::Ne(q), R::Se(q.into())]); }
        v
    }

    fn zips<T: Elem + Copy, U: Elem + Copy>(ctx: &mut Ctx, n: usize, m: usize) {
        let (g, h) = (Guarded::<T>::new(n), Guarded::<U>::new(m));
        let mut hm = Guarded::<U>::new(m);
        let mut gm = Guarded::<T>::new(n);
        let (bg, bh) = (g.mid().as_ptr(), h.mid().as_ptr());
        let (bgm, bhm) = (gm.mid().as_ptr(), hm.mid().as_ptr());
        let check = |ctx: &mut Ctx, kind: &str, a: Sp, b: Sp, got: &[(Option<isize>, Option<isize>)]| {
            let l = (a.1 - a.0).min(b.1 - b.0);
            let want: Vec<_> = (0..l).map(|k| (Some((a.0 + k) as isize), Some((b.0 + k) as isize))).collect();
            if got != want { fail(format!("zip of {} {:?} of {} x {} and {:?} of {} x {} visits {:?}", kind, a, n, T::NAME, b, m, U::NAME, got)); }
            ctx.obs(&(n, m, a, b));
            ctx.nontrivial += (l > 0) as u64;
            ctx.transitions += 1;
        };
        scope(g.mid(), |c| {
            scope(h.mid(), |e| {
                scope(hm.mid_mut(), |mut em| {
                    scope(gm.mid_mut(), |mut cm| {
                        let (uc, ue, um, un) = (pts(&c).1, pts(&e).1, pts(&em).1, pts(&cm).1);
                        for a in 0..=n { for b in a..=n { for x in 0..=m { for y in x..=m {
                            ctx.case(|| format!("zip of {}..{} of {} x {} and {}..{} of {} x {}", a, b, n, T::NAME, x, y, m, U::NAME));
                            ctx.states += 1;
                            let (p, q, qm, pm) = (pr(&c, &uc, a, b), pr(&e, &ue, x, y), pr(&em, &um, x, y), pr(&cm, &un, a, b));
                            let (sa, sb) = ((a, b), (x, y));
                            let mut got = vec![];
                            macro_rules! z { ($kind:expr, $r1:expr, $c1:expr, $r2:expr, $c2:expr, $b1:expr, $b2:expr) => {{
                                got.clear();
                                zip($r1, $c1, $r2, $c2, |s, t| got.push((off($b1, &*s as *const T), off($b2, &*t as *const U))));
                                check(ctx, $kind, sa, sb, &got);
                            }} }
                            for k1 in kinds(p) { for k2 in kinds(q) {
                                match (k1, k2) {
                                    (R::Uk(r), R::Uk(s)) => z!("shared", r, &c, s, &e, bg, bh),
                                    (R::Uk(r), R::Ne(s)) => z!("shared", r, &c, s, &e, bg, bh),
                                    (R::Uk(r), R::Sk(s)) => z!("shared", r, &c, s, &e, bg, bh),
                                    (R::Uk(r), R::Se(s)) => z!("shared", r, &c, s, &e, bg, bh),
                                    (R::Ne(r), R::Uk(s)) => z!("shared", r, &c, s, &e, bg, bh),
                                    (R::Ne(r), R::Ne(s)) => z!("shared", r, &c, s, &e, bg, bh),
                                    (R::Ne(r), R::Sk(s)) => z!("shared", r, &c, s, &e, bg, bh),
                                    (R::Ne(r), R::Se(s)) => z!("shared", r, &c, s, &e, bg, bh),
                                    (R::Sk(r), R::Uk(s)) => z!("shared", r, &c, s, &e, bg, bh),
                                    (R::Sk(r), R::Ne(s)) => z!("shared", r, &c, s, &e, bg, bh),
                                    (R::Sk(r), R::Sk(s)) => z!("shared", r, &c, s, &e, bg, bh),
                                    (R::Sk(r), R::Se(s)) => z!("shared", r, &c, s, &e, bg, bh),
                                    (R::Se(r), R::Uk(s)) => z!("shared", r, &c, s, &e, bg, bh),
                                    (R::Se(r), R::Ne(s)) => z!("shared", r, &c, s, &e, bg, bh),
                                    (R::Se(r), R::Sk(s)) => z!("shared", r, &c, s, &e, bg, bh),
                                    (R::Se(r), R::Se(s)) => z!("shared", r, &c, s, &e, bg, bh),
                                }
                            } }
                            z!("shared and mutable", p, &c, qm, &mut em, bg, bhm);
                            z!("mutable and shared", pm, &mut cm, q, &e, bgm, bh);
                            z!("mutable and mutable", pm, &mut cm, PSlice::from(qm), &mut em, bgm, bhm);
                            // one container with itself
                            got.clear();
                            let p2 = pr(&c, &uc, x.min(n), y.min(n));
                            zip(p, &c, p2, &c, |s: &T, t: &T| got.push((off(bg, s), off(bg, t))));
                            check(ctx, "one container with itself,", (a, b), (x.min(n), y.min(n)), &got);
                            // writing
                            zip(p, &c, qm, &mut em, |s, t| *t = U::mk(F + s.id()));
                            zip(qm, &em, pm, &mut cm, |s, t| *t = T::mk(s.id() + 1));
                            let l = (b - a).min(y - x);
                            for k in 0..m {
                                let got = em[..][k].id();
                                let want = if k >= x && k < x + l { U::mk_id(F + T::mk_id(a + k - x)) } else { U::mk_id(k) };
                                if got != want { fail(format!("copying {:?} of {} to {:?} of {} by zip: element {} is {} instead of {}", sa, n, sb, m, k, got, want)); }
                            }
                            for k in 0..n {
                                let got = cm[..][k].id();
                                let want = if k >= a && k < a + l { T::mk_id(U::mk_id(F + T::mk_id(k)) + 1) } else { T::mk_id(k) };
                                if got != want { fail(format!("copying {:?} of {} to {:?} of {} by zip: element {} is {} instead of {}", sb, m, sa, n, k, got, want)); }
                            }
                            for k in 0..m { em[..][k] = U::mk(k); }
                            for k in 0..n { cm[..][k] = T::mk(k); }
                        } } } }
                    })
                })
            })
        });
        if !(g.guards_ok() && h.guards_ok() && gm.guards_ok() && hm.guards_ok()) { fail(format!("zip of {} and {} changed an element outside", n, m)); }
    }

    fn typed<T: Elem>(us: &mut Vec<Unit>, t: Tier) {
        us.push(unit(format!("reads {}", T::NAME), move |ctx| {
            for n in (0..=t.pick(5, 12, 24)).chain(t.pick(vec![], vec![31, 32, 33], vec![63, 64, 65, 127, 128])) {
                let mut g = Guarded::<T>::new(n);
                let b = g.mid().as_ptr();
                scope(g.mid(), |c| { reads(ctx, "&[T]", &c, b, n); reads(ctx, "clone of &[T]", &c.clone(), b, n) });
                scope(&g.mid(), |c| reads(ctx, "&&[T]", &c, b, n));
                scope(g.mid_mut(), |c| reads(ctx, "&mut [T]", &c, b, n));
                scope(&mut g.mid_mut(), |c| reads(ctx, "&mut &mut [T]", &c, b, n));
                scope(&&mut *g.mid_mut(), |c| reads(ctx, "&&mut [T]", &c, b, n));
                for b in huge::BOUNDARIES {
                    for k in (0..=n).filter(|k| n < 9 || k % 8 == 1) {
                        huge::across::<T>(b, n, k, |s| { let b = s.as_ptr(); scope(&*s, |c| reads(ctx, "&[T] across an address with zero lower bits", &c, b, n)) });
                    }
                }
                #[cfg(feature = "std")]
                if mc::vecs() {
                    let mut v: Vec<T> = Vec::with_capacity(n + 3);
                    v.extend((0..n).map(T::mk));
                    let b = v.as_ptr();
                    scope(&v, |c| reads(ctx, "&Vec", &c, b, n));
                    scope(&mut v, |c| reads(ctx, "&mut Vec", &c, b, n));
                    scope(v, |c| reads(ctx, "Vec", &c, b, n));
                }
            }
        }));
        for n in 0..=t.pick(4, 7, 10) {
            us.push(unit(format!("edits {} n={}", T::NAME, n), move |ctx| {
                for w in all(n) {
                    store::each_mut::<T, _>(n, true, &mut V { ctx, ws: vec![w] });
                    dropped(&|| format!("{} x {}: {:?}", n, T::NAME, w));
                }
            }));
        }
        // histories of two edits
        for n in 0..=t.pick(2, 3, 4) {
            us.push(unit(format!("pairs of edits {} n={}", T::NAME, n), move |ctx| {
                for a in all(n) { for b in all(n) {
                    store::each_mut::<T, _>(n, false, &mut V { ctx, ws: vec![a, b] });
                    dropped(&|| format!("{} x {}: {:?} {:?}", n, T::NAME, a, b));
                } }
            }));
        }
    }

    pub fn units(t: Tier) -> Vec<Unit> {
        let mut us = vec![];
        typed::<u8>(&mut us, t);
        typed::<u32>(&mut us, t);
        typed::<B3>(&mut us, t);
        typed::<u64>(&mut us, t);
        typed::<Big>(&mut us, t);
        typed::<Al64>(&mut us, t);
        typed::<Mid>(&mut us, t);
        typed::<Vast>(&mut us, t);
        typed::<Tok>(&mut us, t);
        typed::<Heap>(&mut us, t);
        for n in 0..=t.pick(3, 6, 8) {
            us.push(unit(format!("zip {}", n), move |ctx| {
                for m in 0..=t.pick(3, 6, 8) {
                    zips::<u32, u8>(ctx, n, m);
                    zips::<u8, Big>(ctx, n, m);
                    zips::<B3, Al64>(ctx, n, m);
                    zips::<Vast, u16>(ctx, n, m);
                }
            }));
        }
        us.push(unit("far places", move |ctx| {
            fn at<'id, T, A: Contiguous<Item = T>>(c: &Container<'id, A>, a: usize) -> PIndex<'id, T, Unknown> {
                let (mut r, mut o) = (c.pointer_range(), 0);
                if a == r.len() { return r.past_the_end(); }
                while r.len() > 1 {
                    let (x, y) = r.split_in_half();
                    if a - o < x.len() { r = x } else { o += x.len(); r = y }
                }
                r.first()
            }
            fn go<T: Elem + huge::Zeroable>(ctx: &mut Ctx, n: usize) {
                let ps = huge::places(n);
                let k = ps.len();
                huge::with::<T>(n, |s| {
                    let base = s.as_ptr();
                    let mut cur: Vec<usize> = (0..k - 1).map(|i| i + 1).collect();
                    for (i, &p) in ps[..k - 1].iter().enumerate() { s[p] = T::mk(i + 1); }
                    scope(s, |mut c| {
                        let d = |m: String| format!("{} x {}: {}", n, T::NAME, m);
                        let uk: Vec<_> = ps.iter().map(|&p| at(&c, p)).collect();
                        let same = |ctx: &mut Ctx, c: &Container<'_, &mut [T]>, cur: &[usize], what: &dyn Fn() -> String| {
                            let s = &c[..];
                            if let Some(i) = (0..k - 1).find(|&i| s[ps[i]].id() != T::mk_id(cur[i])) { fail(d(format!("{}: the element at {} is {} instead of {}", what(), ps[i], s[ps[i]].id(), cur[i]))); }
                            ctx.transitions += 1;
                            ctx.states += 1;
                            ctx.nontrivial += 1;
                            ctx.obs(cur);
                        };
                        for i in 0..k {
                            ctx.case(|| d(format!("pointers at {}", ps[i])));
                            ctx.ck(is_sub(base, &c[uk[i]..], ps[i], n - ps[i]) && is_sub(base, &mut c[uk[i]..], ps[i], n - ps[i]), || d(format!("c[{}..]", ps[i])));
                            ctx.ck(is_sub(base, &c[..uk[i]], 0, ps[i]) && is_sub(base, &mut c[..uk[i]], 0, ps[i]), || d(format!("c[..{}]", ps[i])));
                            for j in i + 1..k {
                                let Ok(r) = c.nonempty_range(uk[i], uk[j]) else { fail(d(format!("nonempty_range of {} and {} refused", ps[i], ps[j]))) };
                                ctx.ck(is_sub(base, &c[r], ps[i], ps[j] - ps[i]) && is_sub(base, &mut c[r], ps[i], ps[j] - ps[i]) && is_at(base, &c[r.first()], ps[i]) && is_at(base, &c[r.last()], ps[j] - 1), || d(format!("c[{}..{}]", ps[i], ps[j])));
                                ctx.transitions += 2;
                                if ps[j] - ps[i] == j - i {
                                    c.rotate1_prange(r);
                                    cur[i..j].rotate_right(1);
                                    same(ctx, &c, &cur, &|| format!("rotate1_prange({}..{})", ps[i], ps[j]));
                                }
                            }
                            let (p, q) = c.split_at_pointer(uk[i]);
                            let mut got = vec![];
                            // the last elements before the split with the first after it
                            if i >= 3 && ps[i] - ps[i - 3] == 3 {
                                let l = c.nonempty_range(uk[i - 3], uk[i]).ok().unwrap();
                                zip(l, &c, q, &c, |x: &T, y: &T| got.push((off(base, x), off(base, y))));
                                let m = 3.min(n - ps[i]);
                                ctx.ck(got == (0..m).map(|z| (Some((ps[i] - 3 + z) as isize), Some((ps[i] + z) as isize))).collect::<Vec<_>>(), || d(format!("zip of {}..{} and {}.. visits {:?}", ps[i] - 3, ps[i], ps[i], got)));
                            }
                            ctx.ck(p.len() == ps[i] && q.len() == n - ps[i], || d(format!("split_at_pointer at {} gives {} and {}", ps[i], p.len(), q.len())));
                            c.split_container_at_pointer(uk[i], |mut x, rx, mut y, ry| {
                                half(&d, &x, rx, base, 0, ps[i], "first");
                                half(&d, &y, ry, base, ps[i], n, "second");
                                if ps[i] > 0 { x[..][0] = T::mk(i + 40); }
                                if ps[i] < n { y[..][0] = T::mk(i + 80); }
                            });
                            if ps[i] > 0 { cur[0] = i + 40; }
                            if ps[i] < n { cur[i] = i + 80; }
                            same(ctx, &c, &cur, &|| format!("split at {}", ps[i]));
                        }
                        let ne: Vec<_> = (0..k - 1).map(|i| c.nonempty_range(uk[i], uk[k - 1]).ok().unwrap().first()).collect();
                        for i in 0..k - 1 { for j in 0..k - 1 {
                            ctx.case(|| d(format!("swap_ptr({}, {})", ps[i], ps[j])));
                            ctx.ck(is_at(base, &c[ne[i]], ps[i]), || d(format!("c[{}] or c[{}]", ps[i], ps[j])));
                            c.swap_ptr(ne[i], ne[j]);
                            cur.swap(i, j);
                            same(ctx, &c, &cur, &|| format!("swap_ptr({}, {})", ps[i], ps[j]));
                        } }
                    });
                });
            }
            for n in huge::LENGTHS {
                go::<u8>(ctx, n);
                go::<B3>(ctx, n);
                go::<u64>(ctx, n);
            }
            go::<u8>(ctx, (1 << 40) + 3);
        }));
        for n in t.pick(vec![], vec![65535, 65536, 65537, 131_075], vec![65535, 65536, 65537, 131_075, 1 << 20]) {
            us.push(unit(format!("long n={}", n), move |ctx| {
                fn go<T: Elem>(ctx: &mut Ctx, n: usize) {
                    let mut g = Guarded::<T>::new(n);
                    let base = g.mid().as_ptr();
                    let mut m: Vec<usize> = (0..n).collect();
                    let ps: Vec<usize> = vec![0, 1, 255, 256, n - 65535.min(n), n - 1, n];
                    scope(g.mid_mut(), |mut c| {
                        for &a in &ps {
                            for &b in &ps { if a < b { write(ctx, "&mut [T]", &mut c, base, n, W::Rotate(a, b), &mut m); } }
                            write(ctx, "&mut [T]", &mut c, base, n, W::Split(a, false), &mut m);
                            if a < n { write(ctx, "&mut [T]", &mut c, base, n, W::Swap(a, n - 1), &mut m); }
                        }
                    });
                    ctx.ck(g.guards_ok(), || format!("{} x {}: an element outside changed", n, T::NAME));
                    let h = Guarded::<u16>::new(n + 1);
                    let bh = h.mid().as_ptr();
                    scope(g.mid(), |c| scope(h.mid(), |e| for (a, x) in [(0, 0), (0, 1), (1, 0), (n - 300, 7)] {
                        ctx.case(|| format!("zip of {}.. of {} x {} and {}.. of {}", a, n, T::NAME, x, n + 1));
                        let (uc, ue) = (pts(&c).1, pts(&e).1);
                        let (p, q) = (pr(&c, &uc, a, n), pr(&e, &ue, x, n + 1));
                        let l = (n - a).min(n + 1 - x);
                        let (mut k, mut bad) = (0, false);
                        zip(p, &c, q, &e, |s: &T, t: &u16| { bad |= !is_at(base, s, a + k) || !is_at(bh, t, x + k); k += 1; });
                        ctx.ck(!bad && k == l, || format!("zip of {}.. of {} x {} and {}.. of {} visits {} pairs or wrong ones", a, n, T::NAME, x, n + 1, k));
                        let (mut k, mut bad) = (0, false);
                        zip(PSlice::from(q), &e, p, &c, |t: &u16, s: &T| { bad |= !is_at(base, s, a + k) || !is_at(bh, t, x + k); k += 1; });
                        ctx.ck(!bad && k == l, || format!("zip of {}.. of {} and {}.. of {} x {} visits {} pairs or wrong ones", x, n + 1, a, n, T::NAME, k));
                        ctx.transitions += 2;
                    }));
                }
                go::<u8>(ctx, n);
                go::<u32>(ctx, n);
                go::<Big>(ctx, n);
            }));
        }
        for n in t.pick(vec![], vec![31, 64, 257], vec![31, 33, 64, 65, 127, 128, 129, 255, 256, 257, 1000]) {
            us.push(unit(format!("large n={}", n), move |ctx| {
                fn go<T: Elem>(ctx: &mut Ctx, n: usize) {
                    let ps: Vec<usize> = vec![0, 1, 2, n / 2 - 1, n / 2, n / 2 + 1, n - 2, n - 1, n];
                    let mut ws = vec![];
                    for &a in &ps {
                        ws.extend([W::From(a, false), W::To(a, false), W::Split(a, false), W::Split(a.min(n - 1), true)]);
                        for &b in &ps {
                            if a < n && b < n { ws.push(W::Swap(a, b)); }
                            if a <= b { ws.push(W::Range(a, b, false)); }
                            if a < b { ws.push(W::Rotate(a, b)); }
                            for &z in &ps { if b <= a && a <= z { ws.push(W::SplitTwice(a, b, z)); } }
                        }
                    }
                    for w in ws { store::each_mut::<T, _>(n, false, &mut V { ctx, ws: vec![w] }); }
                }
                go::<u16>(ctx, n);
                go::<Big>(ctx, n);
                go::<Tok>(ctx, n);
            }));
        }
        us
    }
}

fn main() {
    #[cfg(feature = "ptr")]
    mc::harness_main(go::units);
    #[cfg(not(feature = "ptr"))]
    mc::harness_main(|_| vec![]);
}
