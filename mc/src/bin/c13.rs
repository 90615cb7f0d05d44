//! Twins and clones.
use indexing::container_traits::*;
use indexing::{scope, Container, Index, Range, NonEmpty};
use mc::elem::*;
use mc::ops::{all_parts, Part};
use mc::store::*;
use mc::*;

fn zst(n: usize) -> &'static [()] {
    unsafe { std::slice::from_raw_parts(std::ptr::NonNull::dangling().as_ptr(), n) }
}
fn refused() -> ! { fail("twin of equal length refused") }

/// Reads through all of `parts` (positions 0..n) land on this container's own elements.
fn reads<'id, T: Elem, A, M>(ctx: &mut Ctx, what: &dyn Fn() -> String, c: &Container<'id, A, M>, base: *const T, n: usize, parts: &[Part<'id>], ids: &[usize])
where A: Contiguous<Item = T> + GetUnchecked {
    if c.len() != n { fail(format!("{}: len {}", what(), c.len())); }
    let sl = |s: &[T], a: usize, b: usize, ctx: &mut Ctx| {
        ctx.transitions += 1;
        if !is_sub(base, s, a, b - a) { fail(format!("{}: slice {}..{} is {} elements at offset {:?}", what(), a, b, s.len(), off(base, s.as_ptr()))); }
        for (k, x) in s.iter().enumerate() {
            if x.id() != ids[a + k] { fail(format!("{}: element {} is {} instead of {}", what(), a + k, x.id(), ids[a + k])); }
        }
    };
    for p in parts {
        match *p {
            Part::INe(i) => {
                let k = i.integer();
                if k >= n { fail(format!("{}: index {}", what(), k)); }
                sl(std::slice::from_ref(&c[i]), k, k + 1, ctx);
                sl(&c[i..], k, n, ctx);
            }
            Part::IUk(i) => {
                let k = i.integer();
                if k > n { fail(format!("{}: edge index {}", what(), k)); }
                sl(&c[i..], k, n, ctx);
                sl(&c[..i], 0, k, ctx);
            }
            Part::RNe(r) => sl(&c[r], r.start(), r.end(), ctx),
            Part::RUk(r) => sl(&c[r], r.start(), r.end(), ctx),
        }
    }
    ctx.states += 1;
}

/// Is a twin over `arr` (of length m) admitted exactly when m == n?
fn admit<'id, A, X, M, B: Trustworthy + FixedLength>(ctx: &mut Ctx, what: &str, of: &str, c: &Container<'id, A, M>, arr: B, m: usize)
where A: Trustworthy<Item = X> + FixedLength {
    let n = c.len();
    ctx.case(|| format!("twin over {} of {} for {} of {}", what, m, of, n));
    ctx.transitions += 1;
    let r = c.make_twin(arr);
    let ok = r.is_ok();
    ctx.ck(ok == (m == n), || format!("twin over {} of {} for {} of {} is {}", what, m, of, n, if ok { "admitted" } else { "refused" }));
    if let Ok(t) = r {
        ctx.nontrivial += 1;
        // (checked integers of the twin agree)
        ctx.ck(t.len() == n && t.vet(n).is_err() && t.vet_range(0..n).is_ok() && (n == 0 || t.vet(n - 1).is_ok()), || format!("twin over {} of {} checks integers differently", what, n));
    }
    ctx.obs(&(n, m, ok));
}

fn admissions<T: Elem, U: Elem>(ctx: &mut Ctx, n: usize, m: usize) {
    fn each<'id, A, X, M, U: Elem>(ctx: &mut Ctx, of: &str, c: &Container<'id, A, M>, m: usize)
    where A: Trustworthy<Item = X> + FixedLength {
        let mut u: Vec<U> = (0..m).map(U::mk).collect();
        admit(ctx, "&[U]", of, c, &u[..], m);
        admit(ctx, "&&[U]", of, c, &&u[..], m);
        admit(ctx, "&mut [U]", of, c, &mut u[..], m);
        admit(ctx, "&mut &mut [U]", of, c, &mut &mut u[..], m);
        admit(ctx, "user-defined", of, c, Scattered::<U>::new(m), m);
        let s = Scattered::<U>::new(m);
        admit(ctx, "& user-defined", of, c, &s, m);
        if U::ZST { admit(ctx, "zero-sized", of, c, zst(m), m); }
    }
    let mut t: Vec<T> = (0..n).map(T::mk).collect();
    scope(&t[..], |c| {
        each::<_, _, _, U>(ctx, "&[T]", &c, m);
        each::<_, _, _, U>(ctx, "clone", &c.clone(), m);
        // a twin of a twin
        let w = c.make_twin(zst(n)).unwrap_or_else(|_| refused());
        each::<_, _, _, U>(ctx, "twin", &w, m);
        each::<_, _, _, U>(ctx, "&[T] (only index)", &c.only_index(), m);
    });
    scope(&mut t[..], |c| each::<_, _, _, U>(ctx, "&mut [T]", &c, m));
    scope(&mut &mut t[..], |c| each::<_, _, _, U>(ctx, "&mut &mut [T]", &c, m));
    scope(Scattered::<T>::new(n), |c| each::<_, _, _, U>(ctx, "user-defined", &c, m));
    scope(zst(n), |c| each::<_, _, _, U>(ctx, "zero-sized", &c, m));
}

/// What is done to one container of a family; the others must not change.
#[derive(Clone, Copy, Debug)]
enum W { One(usize), Range(usize, usize), Swap(usize, usize), Up(usize, usize), Down(usize, usize) }
fn works(n: usize) -> Vec<W> {
    let mut v = vec![];
    for a in 0..n {
        v.push(W::One(a));
        for b in 0..n { v.push(W::Swap(a, b)); }
        for b in a..=n { v.extend([W::Range(a, b), W::Up(a, b), W::Down(a, b)]); }
    }
    v
}
fn model(w: W, m: &mut Vec<usize>) {
    match w {
        W::One(a) => m[a] = 200,
        W::Range(a, b) => for (k, x) in m[a..b].iter_mut().enumerate() { *x = 200 + k },
        W::Swap(a, b) => m.swap(a, b),
        W::Up(a, b) => if a < b { m[a..b].rotate_right(1) },
        W::Down(a, b) => if a < b { m[a..b].rotate_left(1) },
    }
}
struct Idx<'id> { i: Vec<Index<'id>>, r: Vec<(usize, usize, Range<'id>, Option<Range<'id, NonEmpty>>)> }
/// All indices and ranges, checked by `c`.
fn idx<'id, A: Trustworthy<Item = T>, T, M>(c: &Container<'id, A, M>) -> Idx<'id> {
    let n = c.len();
    let i = (0..n).map(|k| c.vet(k).unwrap_or_else(|_| fail("vet of a valid integer refused"))).collect();
    let mut r = vec![];
    for a in 0..=n { for b in a..=n {
        let x = c.vet_range(a..b).unwrap_or_else(|_| fail("vet_range of a valid range refused"));
        r.push((a, b, x, x.nonempty().ok()));
    } }
    Idx { i, r }
}
fn work<'id, T: Elem, A, M>(w: W, c: &mut Container<'id, A, M>, x: &Idx<'id>)
where A: ContiguousMut<Item = T> + GetUncheckedMut {
    let r = |a, b| x.r.iter().find(|y| (y.0, y.1) == (a, b)).unwrap();
    match w {
        W::One(a) => c[x.i[a]] = T::mk(200),
        W::Range(a, b) => for (k, e) in c[r(a, b).2].iter_mut().enumerate() { *e = T::mk(200 + k) },
        W::Swap(a, b) => c.swap(x.i[a], x.i[b]),
        W::Up(a, b) => match r(a, b).3 { Some(q) => c.rotate1_up(q), None => c.rotate1_up(r(a, b).2) },
        W::Down(a, b) => match r(a, b).3 { Some(q) => c.rotate1_down(q), None => c.rotate1_down(r(a, b).2) },
    }
}

/// A container, its twin, and the twin's twin, over three element types: indices of each used on each.
fn family<T: Elem, U: Elem, S: Elem>(ctx: &mut Ctx, n: usize) {
    let d = move |m: String| format!("{} x {}, twin {}, twin's twin {}: {}", n, T::NAME, U::NAME, S::NAME, m);
    for who in 0..3usize {
        for from in 0..3usize {
            for w in works(n) {
                live_reset();
                ctx.case(|| d(format!("{:?} in container {} by indices of container {}", w, who, from)));
                {
                let (mut t, mut u, mut s) = (Guarded::<T>::new(n), Guarded::<U>::new(n), Guarded::<S>::new(n));
                let (bt, bu, bs) = (t.mid().as_ptr(), u.mid().as_ptr(), s.mid().as_ptr());
                let mut m: Vec<usize> = (0..n).collect();
                let id: Vec<usize> = m.clone();
                model(w, &mut m);
                scope(t.mid_mut(), |mut c| {
                    let mut cu = c.make_twin(u.mid_mut()).unwrap_or_else(|_| refused());
                    let mut cs = cu.make_twin(s.mid_mut()).unwrap_or_else(|_| refused());
                    let x = match from { 0 => idx(&c), 1 => idx(&cu), _ => idx(&cs) };
                    let parts = match from { 0 => all_parts(&c), 1 => all_parts(&cu), _ => all_parts(&cs) };
                    match who { 0 => work(w, &mut c, &x), 1 => work(w, &mut cu, &x), _ => work(w, &mut cs, &x) }
                    let e = |k: usize| if k == who { &m } else { &id };
                    let wa = move || d(format!("after {:?} in container {}", w, who));
                    reads(ctx, &wa, &c, bt, n, &parts, &want_ids::<T>(e(0).iter().copied()));
                    reads(ctx, &wa, &cu, bu, n, &parts, &want_ids::<U>(e(1).iter().copied()));
                    reads(ctx, &wa, &cs, bs, n, &parts, &want_ids::<S>(e(2).iter().copied()));
                    // and lengths and checked integers agree
                    for k in 0..=n + 1 {
                        let v = (c.vet(k).is_ok(), cu.vet(k).is_ok(), cs.vet(k).is_ok());
                        if v != (k < n, k < n, k < n) { fail(d(format!("vet({}) gives {:?}", k, v))); }
                    }
                    ctx.obs(&(who, n, &m));
                });
                if !(t.guards_ok() && u.guards_ok() && s.guards_ok()) { fail(d(format!("{:?} in container {}: an element outside changed", w, who))); }
                }
                if let Some((i, c)) = live_bad(0, 0) { fail(d(format!("{:?}: id {} is live {} times after everything was dropped", w, i, c))); }
                ctx.nontrivial += 1;
            }
        }
    }
}

fn clones<T: Elem>(ctx: &mut Ctx, n: usize) {
    let g = Guarded::<T>::new(n);
    let base = g.mid().as_ptr();
    let ids = want_ids::<T>(0..n);
    let d = move |m: &str| format!("{} x {}: {}", n, T::NAME, m);
    scope(g.mid(), |c| {
        ctx.case(|| d("clones"));
        let a = c.clone();
        let b = a.clone();
        let o = c.clone().only_index();
        let oo = o.clone();
        for parts in [all_parts(&c), all_parts(&a), all_parts(&b), all_parts(&o), all_parts(&oo)] {
            reads(ctx, &|| d("container"), &c, base, n, &parts, &ids);
            reads(ctx, &|| d("clone"), &a, base, n, &parts, &ids);
            reads(ctx, &|| d("clone of clone"), &b, base, n, &parts, &ids);
            reads(ctx, &|| d("only-index clone"), &o, base, n, &parts, &ids);
            reads(ctx, &|| d("clone of only-index clone"), &oo, base, n, &parts, &ids);
        }
        // twins of clones and clones of twins
        let h = Guarded::<T>::new(n);
        let hb = h.mid().as_ptr();
        let t = b.make_twin(h.mid()).unwrap_or_else(|_| refused());
        let tc = t.clone();
        reads(ctx, &|| d("twin of clone"), &t, hb, n, &all_parts(&c), &ids);
        reads(ctx, &|| d("clone of twin"), &tc, hb, n, &all_parts(&a), &ids);
        reads(ctx, &|| d("container"), &c, base, n, &all_parts(&tc), &ids);
        let mut own = Guarded::<T>::new(n);
        let ob = own.mid().as_ptr();
        let mt = tc.make_twin(own.mid_mut()).unwrap_or_else(|_| refused());
        reads(ctx, &|| d("mutable twin of clone of twin"), &mt, ob, n, &all_parts(&t), &ids);
        ctx.obs(&n);
        ctx.nontrivial += 1;
    });
    scope(&g.mid(), |c| {
        ctx.case(|| d("clone of && container"));
        reads(ctx, &|| d("clone (&&)"), &c.clone(), base, n, &all_parts(&c), &ids);
    });
}

/// A user-defined storage whose clones share its elements.
struct Rcd<T>(std::rc::Rc<Vec<T>>);
impl<T> Clone for Rcd<T> { fn clone(&self) -> Self { Rcd(self.0.clone()) } }
unsafe impl<T> Trustworthy for Rcd<T> { type Item = T; fn base_len(&self) -> usize { self.0.len() } }
unsafe impl<T> FixedLength for Rcd<T> {}
unsafe impl<T> GetUnchecked for Rcd<T> {
    unsafe fn xget_unchecked(&self, i: usize) -> &T { match self.0.get(i) { Some(x) => x, None => fail(format!("unchecked read of element {} of {}", i, self.0.len())) } }
}
unsafe impl<T> Contiguous for Rcd<T> {
    fn begin(&self) -> *const T { self.0.as_ptr() }
    fn end(&self) -> *const T { unsafe { self.0.as_ptr().add(self.0.len()) } }
    fn as_slice(&self) -> &[T] { &self.0 }
}
/// A user-defined storage with its elements inside; clones are independent.
#[derive(Clone)]
struct Inline<T, const N: usize>([T; N]);
unsafe impl<T, const N: usize> Trustworthy for Inline<T, N> { type Item = T; fn base_len(&self) -> usize { N } }
unsafe impl<T, const N: usize> FixedLength for Inline<T, N> {}
unsafe impl<T, const N: usize> GetUnchecked for Inline<T, N> {
    unsafe fn xget_unchecked(&self, i: usize) -> &T { match self.0.get(i) { Some(x) => x, None => fail(format!("unchecked read of element {} of {}", i, N)) } }
}
unsafe impl<T, const N: usize> GetUncheckedMut for Inline<T, N> {
    unsafe fn xget_unchecked_mut(&mut self, i: usize) -> &mut T { match self.0.get_mut(i) { Some(x) => x, None => fail(format!("unchecked write of element {} of {}", i, N)) } }
}
unsafe impl<T, const N: usize> Contiguous for Inline<T, N> {
    fn begin(&self) -> *const T { self.0.as_ptr() }
    fn end(&self) -> *const T { unsafe { self.0.as_ptr().add(N) } }
    fn as_slice(&self) -> &[T] { &self.0 }
}

/// Containers over user-defined storages own and clone them properly.
fn owned<T: Elem>(ctx: &mut Ctx, n: usize) {
    let d = move |m: &str| format!("user-defined shared storage of {} x {}: {}", n, T::NAME, m);
    ctx.case(|| d("clones and twins"));
    live_reset();
    let s = std::rc::Rc::new((0..n).map(T::mk).collect::<Vec<T>>());
    let h = std::rc::Rc::new((0..n).map(T::mk).collect::<Vec<T>>());
    let (base, hb) = (s.as_ptr(), h.as_ptr());
    let ids = want_ids::<T>(0..n);
    let count = |k: usize, j: usize, m: &str| {
        let got = (std::rc::Rc::strong_count(&s), std::rc::Rc::strong_count(&h));
        if got != (k + 1, j + 1) { fail(d(&format!("{}: the storages have {:?} owners besides this one instead of {:?}", m, (got.0 as isize - 1, got.1 as isize - 1), (k, j)))); }
    };
    scope(Rcd(s.clone()), |c| {
        count(1, 0, "container");
        let a = c.clone();
        count(2, 0, "clone");
        let b = a.clone().only_index();
        count(3, 0, "clone of clone");
        let t = b.make_twin(Rcd(h.clone())).unwrap_or_else(|_| refused());
        let u = t.clone();
        count(3, 2, "twin and its clone");
        if b.make_twin(Rcd(std::rc::Rc::new(vec![(); n + 1]))).is_ok() { fail(d("longer twin admitted")); }
        for parts in [all_parts(&c), all_parts(&a), all_parts(&b), all_parts(&t), all_parts(&u)] {
            reads(ctx, &|| d("container"), &c, base, n, &parts, &ids);
            reads(ctx, &|| d("clone"), &a, base, n, &parts, &ids);
            reads(ctx, &|| d("only-index clone of clone"), &b, base, n, &parts, &ids);
            reads(ctx, &|| d("twin"), &t, hb, n, &parts, &ids);
            reads(ctx, &|| d("clone of twin"), &u, hb, n, &parts, &ids);
        }
        drop(a);
        count(2, 2, "after dropping a clone");
        reads(ctx, &|| d("container after dropping a clone"), &c, base, n, &all_parts(&b), &ids);
        drop(c);
        drop(t);
        count(1, 1, "after dropping the container and the twin");
        reads(ctx, &|| d("clone after dropping the original"), &b, base, n, &all_parts(&u), &ids);
        reads(ctx, &|| d("clone of twin after dropping the original"), &u, hb, n, &all_parts(&b), &ids);
        if b.make_twin(Rcd(h.clone())).is_err() { fail(d("twin refused")); }
    });
    count(0, 0, "after the scope");
    drop((s, h));
    if let Some((i, c)) = live_bad(0, 0) { fail(d(&format!("id {} is live {} times after everything was dropped", i, c))); }
    ctx.nontrivial += 1;
    ctx.obs(&n);
}
fn inline<const N: usize>(ctx: &mut Ctx) {
    let d = |m: String| format!("user-defined inline storage of {} boxes: {}", N, m);
    let arr = |k: usize| Inline::<Box<usize>, N>(std::array::from_fn(|i| Box::new(i + k)));
    ctx.case(|| d("clones".into()));
    scope(arr(0), |mut c| {
        let mut a = c.clone();
        let mut o = a.clone().only_index();
        let mut t = c.make_twin(arr(300)).unwrap_or_else(|_| refused());
        let mut u = t.clone();
        let r = c.range();
        for i in r { *c[i] += 1000; }
        for i in r { *a[i] += 2000; }
        for i in r { *o[i] += 3000; }
        for i in r { *t[i] += 4000; }
        for i in r { *u[i] += 5000; }
        for i in r {
            let k = i.integer();
            let got = [*c[i], *a[i], *o[i], *t[i], *u[i]];
            let want = [k + 1000, k + 2000, k + 3000, k + 4300, k + 5300];
            if got != want { fail(d(format!("element {} of container, clone, clone of clone, twin, clone of twin is {:?} instead of {:?}", k, got, want))); }
            ctx.transitions += 5;
        }
        drop(c);
        drop(a);
        if (0..N).any(|k| *o[o.vet(k).ok().unwrap()] != k + 3000) { fail(d("a clone changed when the original was dropped".into())); }
    });
    ctx.states += 1;
    ctx.nontrivial += 1;
}

fn units(t: Tier) -> Vec<Unit> {
    let mut us = vec![];
    for n in 0..=t.pick(6, 40, 200) {
        us.push(unit(format!("admission n={}", n), move |ctx| {
            for m in 0..=t.pick(7, 42, 202) {
                admissions::<u32, u8>(ctx, n, m);
                admissions::<u8, Big>(ctx, n, m);
                admissions::<(), ()>(ctx, n, m);
                if n <= 5 && m <= 6 {
                    admissions::<Tok, Heap>(ctx, n, m);
                    admissions::<(), u16>(ctx, n, m);
                    admissions::<B3, ()>(ctx, n, m);
                    admissions::<Al64, Ztok>(ctx, n, m);
                }
            }
        }));
    }
    us.push(unit("admission, boundary lengths", move |ctx| {
        let ls: Vec<usize> = {
            let mut v = closures::big_lengths(t);
            let w: Vec<usize> = v.iter().flat_map(|&x| [x.wrapping_sub(1), x, x.wrapping_add(1), x.wrapping_add(256), x.wrapping_add(1 << 16), x.wrapping_add(1 << 32), x ^ 1 << 63]).collect();
            v.extend(w);
            v.extend([0, 1, 2]);
            v.sort();
            v.dedup();
            v
        };
        for &n in &ls {
            scope(zst(n), |c| {
                for &m in &ls {
                    admit(ctx, "zero-sized", "zero-sized", &c, zst(m), m);
                }
                ctx.states += 1;
            });
        }
    }));
    for n in 0..=t.pick(2, 4, 6) {
        us.push(unit(format!("family u32,u8,Big n={}", n), move |ctx| family::<u32, u8, Big>(ctx, n)));
        us.push(unit(format!("family Tok,(),Heap n={}", n), move |ctx| family::<Tok, (), Heap>(ctx, n)));
        us.push(unit(format!("family Ztok,B3,Al64 n={}", n), move |ctx| family::<Ztok, B3, Al64>(ctx, n)));
        us.push(unit(format!("family u16,u16,u16 n={}", n), move |ctx| family::<u16, u16, u16>(ctx, n)));
    }
    us.push(unit("user-defined storages", move |ctx| {
        for n in 0..=t.pick(4, 12, 24) {
            owned::<u8>(ctx, n);
            owned::<Big>(ctx, n);
            owned::<()>(ctx, n);
            owned::<Tok>(ctx, n);
            owned::<Ztok>(ctx, n);
            owned::<Heap>(ctx, n);
        }
        inline::<0>(ctx);
        inline::<1>(ctx);
        inline::<2>(ctx);
        inline::<5>(ctx);
        inline::<40>(ctx);
    }));
    us.push(unit("clones", move |ctx| {
        for n in 0..=t.pick(4, 12, 24) {
            clones::<u8>(ctx, n);
            clones::<u32>(ctx, n);
            clones::<Big>(ctx, n);
            clones::<()>(ctx, n);
            clones::<Tok>(ctx, n);
        }
    }));
    us
}

fn main() {
    harness_main(units)
}
