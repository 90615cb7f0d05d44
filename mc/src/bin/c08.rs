//! Every access through every index and range, for every storage and element type.
use indexing::container_traits::*;
use indexing::proof::Provable;
use indexing::{scope, Container};
use mc::elem::*;
use mc::store::*;
use mc::*;

struct Reads<'a> { ctx: &'a mut Ctx }

impl<'a, T: Elem> Shared<T> for Reads<'a> {
    fn visit<'id, A, M>(&mut self, name: &'static str, c: &Container<'id, A, M>, base: *const T, n: usize)
    where
        A: Contiguous<Item = T> + GetUnchecked,
    {
        let d = |what: String| format!("{} of {} x {}: {}", name, n, T::NAME, what);
        self.ctx.case(|| d("len".into()));
        self.ctx.ck(c.len() == n, || d(format!("len is {}", c.len())));
        let ctx = &mut *self.ctx;
        let mut slice = |s: &[T], a: usize, b: usize, what: &dyn Fn() -> String| {
            ctx.transitions += 1;
            ctx.nontrivial += (b > a) as u64;
            if !is_sub(base, s, a, b - a) {
                fail(d(format!("{} is {} elements at offset {:?} instead of {}..{}", what(), s.len(), off(base, s.as_ptr()), a, b)));
            }
            let bad = (0..b - a).find(|&k| s[k].id() != T::mk_id(a + k));
            if let Some(k) = bad {
                fail(d(format!("element {} of {} has id {}", k, what(), s[k].id())));
            }
            ctx.obs(&(a, b, n));
        };
        let note = |_: &str| {};
        note("");
        slice(&c[..], 0, n, &|| "c[..]".into());
        for i in 0..=n {
            let e = match c.vet_range(i..i) { Ok(r) => r.first(), Err(_) => fail(d(format!("vet_range({}..{}) refused", i, i))) };
            slice(&c[e..], i, n, &|| format!("c[{}..] (edge index)", i));
            slice(&c[..e], 0, i, &|| format!("c[..{}] (edge index)", i));
            if i < n {
                let x = match c.vet(i) { Ok(x) => x, Err(_) => fail(d(format!("vet({}) refused", i))) };
                slice(&c[x..], i, n, &|| format!("c[{}..]", i));
                slice(&c[..x], 0, i, &|| format!("c[..{}]", i));
                let r: &T = &c[x];
                if !is_at(base, r, i) { fail(d(format!("c[{}] is at offset {:?}", i, off(base, r as *const T)))); }
                if r.id() != T::mk_id(i) { fail(d(format!("c[{}] has id {}", i, r.id()))); }
                slice(std::slice::from_ref(r), i, i + 1, &|| format!("c[{}]", i));
            }
            for j in i..=n {
                let r = match c.vet_range(i..j) { Ok(r) => r, Err(_) => fail(d(format!("vet_range({}..{}) refused", i, j))) };
                slice(&c[r], i, j, &|| format!("c[{}..{}]", i, j));
                if let Ok(q) = r.nonempty() {
                    slice(&c[q], i, j, &|| format!("c[{}..{}] (marked)", i, j));
                }
            }
        }
    }
}

/// What a write touches.
#[derive(Clone, Copy, Debug)]
enum What { Index(usize), Range(usize, usize, bool), From(usize, bool), To(usize, bool), Full }

struct Writes<'a> { ctx: &'a mut Ctx, what: What, base: usize, owned: bool }

impl<'a> Writes<'a> {
    fn span(&self, n: usize) -> (usize, usize) {
        match self.what {
            What::Index(i) => (i, i + 1),
            What::Range(a, b, _) => (a, b),
            What::From(a, _) => (a, n),
            What::To(a, _) => (0, a),
            What::Full => (0, n),
        }
    }
    fn run<'id, A, T, M>(&mut self, name: &'static str, c: &mut Container<'id, A, M>, base: *const T, n: usize)
    where
        T: Elem,
        A: ContiguousMut<Item = T> + GetUncheckedMut,
    {
        self.base = base as usize;
        let w = self.what;
        let d = move |m: String| format!("{} of {} x {}: writing {:?}: {}", name, n, T::NAME, w, m);
        self.ctx.case(|| d(String::new()));
        self.ctx.transitions += 1;
        let (a, b) = self.span(n);
        let ctx = &mut *self.ctx;
        ctx.nontrivial += (b > a) as u64;
        let bad = || -> ! { fail(d("checking a valid integer failed".into())) };
        let fresh = 2 * n + 10;
        let mut put = |s: &mut [T]| {
            if !is_sub(base, s, a, b - a) {
                fail(d(format!("is {} elements at offset {:?}", s.len(), off(base, s.as_ptr()))));
            }
            for (k, x) in s.iter_mut().enumerate() {
                if x.id() != T::mk_id(a + k) { fail(d(format!("element {} has id {}", k, x.id()))); }
                *x = T::mk(fresh + k);
            }
        };
        match w {
            What::Index(i) => {
                let Ok(x) = c.vet(i) else { bad() };
                let r = &mut c[x];
                put(std::slice::from_mut(r));
            }
            What::Range(a, b, ne) => {
                let Ok(r) = c.vet_range(a..b) else { bad() };
                if ne {
                    let Ok(r) = r.nonempty() else { bad() };
                    put(&mut c[r]);
                } else {
                    put(&mut c[r]);
                }
            }
            What::From(i, ne) => {
                if ne {
                    let Ok(x) = c.vet(i) else { bad() };
                    put(&mut c[x..]);
                } else {
                    let Ok(r) = c.vet_range(i..i) else { bad() };
                    put(&mut c[r.first().no_proof()..]);
                }
            }
            What::To(i, ne) => {
                if ne {
                    let Ok(x) = c.vet(i) else { bad() };
                    put(&mut c[..x]);
                } else {
                    let Ok(r) = c.vet_range(i..i) else { bad() };
                    put(&mut c[..r.first().no_proof()]);
                }
            }
            What::Full => {}
        }
        ctx.obs(&(a, b, n, T::ZST));
        self.verify::<T>(name, n, fresh);
    }
    fn verify<T: Elem>(&mut self, name: &'static str, n: usize, fresh: usize) {
        if let What::Full = self.what { return; }
        let (a, b) = self.span(n);
        let got = ids(self.base as *const T, n);
        let want = want_ids::<T>((0..n).map(|i| if i >= a && i < b { fresh + i - a } else { i }));
        let w = self.what;
        self.ctx.ck(got == want, || format!("{} of {} x {}: writing {:?} leaves {:?} instead of {:?}", name, n, T::NAME, w, got, want));
    }
}

impl<'a, T: Elem> Mutable<T> for Writes<'a> {
    fn begin(&mut self) { live_reset() }
    fn visit<'id, A>(&mut self, name: &'static str, c: &mut Container<'id, A>, base: *const T, n: usize)
    where
        A: ContiguousMut<Item = T> + GetUncheckedMut,
    {
        if let What::Full = self.what {
            self.base = base as usize;
            self.ctx.case(|| format!("{} of {} x {}: writing c[..]", name, n, T::NAME));
            self.ctx.transitions += 1;
            let s = &mut c[..];
            self.ctx.ck(is_sub(base, s, 0, n), || format!("{} of {} x {}: &mut c[..] is {} elements at offset {:?}", name, n, T::NAME, s.len(), off(base, s.as_ptr())));
            for (k, x) in s.iter_mut().enumerate() { *x = T::mk(2 * n + 10 + k); }
            let got = ids(base, n);
            let want = want_ids::<T>((0..n).map(|i| 2 * n + 10 + i));
            self.ctx.ck(got == want, || format!("{} of {} x {}: writing c[..] leaves {:?}", name, n, T::NAME, got));
            return;
        }
        self.run(name, c, base, n)
    }
    fn visit_only<'id, A>(&mut self, name: &'static str, c: &mut Container<'id, A, OnlyIndex>, base: *const T, n: usize)
    where
        A: ContiguousMut<Item = T> + GetUncheckedMut,
    {
        if let What::Full = self.what { return; }
        self.run(name, c, base, n)
    }
    fn done(&mut self, name: &'static str, n: usize, guards_ok: bool) {
        let w = self.what;
        self.ctx.ck(guards_ok, || format!("{} of {} x {}: writing {:?} changed an element outside the container", name, n, T::NAME, w));
        let _ = self.owned;
    }
}

fn reads<T: Elem>(us: &mut Vec<Unit>, t: Tier) {
    us.push(unit(format!("reads {}", T::NAME), move |ctx| {
        for n in (0..=t.pick(5, 12, 24)).chain(t.pick(vec![], vec![31, 32, 33], vec![63, 64, 65, 127, 128, 129])) {
            each_shared::<T, _>(n, &mut Reads { ctx });
            ctx.states += 1;
        }
    }));
    us.push(unit(format!("writes {}", T::NAME), move |ctx| {
        for n in 0..=t.pick(4, 8, 12) {
            let mut whats = vec![What::Full];
            for i in 0..=n {
                whats.push(What::From(i, false));
                whats.push(What::To(i, false));
                if i < n {
                    whats.extend([What::Index(i), What::From(i, true), What::To(i, true)]);
                }
                for j in i..=n {
                    whats.push(What::Range(i, j, false));
                    if j > i { whats.push(What::Range(i, j, true)); }
                }
            }
            for what in whats {
                each_mut::<T, _>(n, true, &mut Writes { ctx, what, base: 0, owned: false });
                if let Some((i, c)) = live_bad(0, 0) {
                    fail(format!("{} x {}: writing {:?}: id {} is still live {} times after everything was dropped", n, T::NAME, what, i, c));
                }
                ctx.states += 1;
            }
        }
    }));
    us.push(unit(format!("storage traits {}", T::NAME), move |ctx| {
        for n in 0..=t.pick(4, 9, 33) {
            traits::<T>(ctx, n);
        }
    }));
}

/// The storage traits' own methods.
fn traits<T: Elem>(ctx: &mut Ctx, n: usize) {
    fn shared<T: Elem, A: Contiguous<Item = T> + GetUnchecked + ?Sized>(ctx: &mut Ctx, name: &str, a: &A, base: *const T, n: usize) {
        ctx.case(|| format!("traits of {} of {} x {}", name, n, T::NAME));
        ctx.transitions += 1;
        let d = |m: &str| format!("{} of {} x {}: {}", name, n, T::NAME, m);
        ctx.ck(a.base_len() == n, || d("base_len"));
        if !T::ZST {
            ctx.ck(a.begin() == base, || d("begin"));
            ctx.ck(a.end() == unsafe { base.add(n) }, || d("end"));
        }
        ctx.ck(is_sub(base, a.as_slice(), 0, n), || d("as_slice"));
        for i in 0..n {
            let r = unsafe { a.xget_unchecked(i) };
            ctx.ck(is_at(base, r, i) && r.id() == T::mk_id(i), || d(&format!("xget_unchecked({})", i)));
        }
        ctx.obs(&(n, name.len()));
        ctx.states += 1;
    }
    fn mutable<T: Elem, A: ContiguousMut<Item = T> + GetUncheckedMut + ?Sized>(ctx: &mut Ctx, name: &str, a: &mut A, base: *const T, n: usize) {
        shared::<T, A>(ctx, name, a, base, n);
        let d = |m: &str| format!("{} of {} x {}: {}", name, n, T::NAME, m);
        if !T::ZST {
            ctx.ck(a.begin_mut() as *const T == base, || d("begin_mut"));
            ctx.ck(a.end_mut() as *const T == unsafe { base.add(n) }, || d("end_mut"));
        }
        ctx.ck(is_sub(base, a.as_mut_slice(), 0, n), || d("as_mut_slice"));
        for i in 0..n {
            let r = unsafe { a.xget_unchecked_mut(i) };
            ctx.ck(is_at(base, r, i) && r.id() == T::mk_id(i), || d(&format!("xget_unchecked_mut({})", i)));
        }
    }
    let mut g = Guarded::<T>::new(n);
    let b = g.mid().as_ptr();
    shared::<T, _>(ctx, "[T]", g.mid(), b, n);
    shared::<T, _>(ctx, "&[T]", &g.mid(), b, n);
    shared::<T, _>(ctx, "&&[T]", &&g.mid(), b, n);
    mutable::<T, _>(ctx, "[T] (mutable)", g.mid_mut(), b, n);
    mutable::<T, _>(ctx, "&mut [T]", &mut g.mid_mut(), b, n);
    mutable::<T, _>(ctx, "&mut &mut [T]", &mut &mut g.mid_mut(), b, n);
    shared::<T, _>(ctx, "& &mut [T]", &&mut *g.mid_mut(), b, n);
    #[cfg(feature = "std")]
    if mc::vecs() {
        for spare in [0, 4] {
            let mut x: Vec<T> = Vec::with_capacity(n + spare);
            x.extend((0..n).map(T::mk));
            let b = x.as_ptr();
            shared::<T, _>(ctx, "Vec", &x, b, n);
            shared::<T, _>(ctx, "&Vec", &&x, b, n);
            mutable::<T, _>(ctx, "Vec (mutable)", &mut x, b, n);
            mutable::<T, _>(ctx, "&mut Vec", &mut &mut x, b, n);
        }
    }
}

fn custom<T: Elem>(us: &mut Vec<Unit>, t: Tier) {
    us.push(unit(format!("user-defined storage {}", T::NAME), move |ctx| {
        for n in 0..=t.pick(4, 12, 24) {
            let mut s = Scattered::<T>::new(n);
            let at: Vec<*const T> = (0..n).map(|i| s.at(i)).collect();
            scope(&mut s, |mut c| {
                ctx.case(|| format!("user-defined storage of {}", n));
                ctx.ck(c.len() == n, || format!("len {} of a storage of {}", c.len(), n));
                for i in c.range() {
                    ctx.transitions += 1;
                    let k = i.integer();
                    let p: *const T = &c[i];
                    ctx.ck(p == at[k], || format!("c[{}] of a user-defined storage of {} is not its element", k, n));
                    let p: *const T = &mut c[i];
                    ctx.ck(p == at[k], || format!("&mut c[{}] of a user-defined storage of {} is not its element", k, n));
                    ctx.obs(&k);
                }
            });
            ctx.states += 1;
            // exactly these accesses were made: each index was used, none other
            let log = s.log.into_inner();
            ctx.ck((0..n).all(|i| log.contains(&(false, i)) && log.contains(&(true, i))), || format!("accesses {:?}", log));
        }
    }));
}

fn units(t: Tier) -> Vec<Unit> {
    let mut us = vec![];
    reads::<u8>(&mut us, t);
    reads::<u16>(&mut us, t);
    reads::<u64>(&mut us, t);
    reads::<B3>(&mut us, t);
    reads::<Big>(&mut us, t);
    reads::<Al64>(&mut us, t);
    reads::<Mid>(&mut us, t);
    reads::<Vast>(&mut us, t);
    reads::<()>(&mut us, t);
    reads::<Tok>(&mut us, t);
    reads::<Heap>(&mut us, t);
    reads::<Ztok>(&mut us, t);
    custom::<u32>(&mut us, t);
    custom::<Heap>(&mut us, t);
    // large containers at boundary points
    for n in [100, 255, 256, 257, 1000, 32767, 32768, 65535, 65536, 65537, 100_000] {
        us.push(unit(format!("large n={}", n), move |ctx| {
            fn go<T: Elem>(ctx: &mut Ctx, n: usize) {
                let mut g = Guarded::<T>::new(n);
                let base = g.mid().as_ptr();
                let ps = gen::points(n);
                scope(g.mid_mut(), |mut c| {
                    let d = |m: String| format!("&mut [T] of {} x {}: {}", n, T::NAME, m);
                    for &a in &ps {
                        ctx.case(|| d(format!("accesses at {}", a)));
                        let e = c.vet_range(a..a).ok().unwrap().first();
                        ctx.ck(is_sub(base, &c[e..], a, n - a) && is_sub(base, &mut c[e..], a, n - a), || d(format!("c[{}..]", a)));
                        ctx.ck(is_sub(base, &c[..e], 0, a) && is_sub(base, &mut c[..e], 0, a), || d(format!("c[..{}]", a)));
                        if let Ok(i) = c.vet(a) {
                            ctx.ck(is_at(base, &c[i], a) && is_at(base, &mut c[i], a) && c[i].id() == T::mk_id(a), || d(format!("c[{}]", a)));
                        }
                        ctx.transitions += 4;
                        for &b in &ps {
                            if let Ok(r) = c.vet_range(a..b) {
                                ctx.transitions += 1;
                                ctx.nontrivial += 1;
                                ctx.ck(is_sub(base, &c[r], a, b - a) && is_sub(base, &mut c[r], a, b - a), || d(format!("c[{}..{}]", a, b)));
                                ctx.obs(&(a, b));
                            }
                        }
                    }
                    ctx.states += 1;
                });
            }
            go::<u8>(ctx, n);
            go::<u16>(ctx, n);
            go::<Big>(ctx, n);
            go::<Al64>(ctx, n);
        }));
    }
    us.push(unit("zero-sized, boundary lengths", move |ctx| {
        for n in closures::big_lengths(t) {
            let z: &[()] = unsafe { std::slice::from_raw_parts(std::ptr::NonNull::dangling().as_ptr(), n) };
            // (offsets of more than isize::MAX elements of size zero are still no offset at all)
            scope(z, |c| {
                let ps = gen::points(n);
                ctx.ck(c.len() == n, || format!("len of {} zero-sized", n));
                for &a in &ps {
                    ctx.case(|| format!("{} zero-sized elements: accesses at {}", n, a));
                    let e = c.vet_range(a..a).unwrap_or_else(|_| fail("vet_range(a..a) refused")).first();
                    ctx.ck(c[e..].len() == n - a && c[..e].len() == a && c[..].len() == n, || format!("{} zero-sized elements: slices at {}", n, a));
                    if let Ok(i) = c.vet(a) {
                        let () = c[i];
                    }
                    ctx.transitions += 4;
                    for &b in &ps {
                        if let Ok(r) = c.vet_range(a..b) {
                            ctx.transitions += 1;
                            ctx.ck(c[r].len() == b - a, || format!("{} zero-sized elements: c[{}..{}]", n, a, b));
                            ctx.obs(&(a, b, n));
                            ctx.nontrivial += 1;
                        }
                    }
                }
                ctx.states += 1;
            });
        }
    }));
    us.push(unit("address-space sized", move |ctx| {
        fn go<T: Elem + huge::Zeroable + PartialEq>(ctx: &mut Ctx, n: usize) {
            let ps = huge::places(n);
            huge::with::<T>(n, |s| {
                let base = s.as_ptr();
                scope(s, |mut c| {
                    let d = |m: String| format!("&mut [T] of {} x {}: {}", n, T::NAME, m);
                    ctx.ck(c.len() == n && is_sub(base, &c[..], 0, n) && is_sub(base, &mut c[..], 0, n), || d("c[..]".into()));
                    for &a in &ps {
                        ctx.case(|| d(format!("accesses at {}", a)));
                        ctx.transitions += 6;
                        let e = c.vet_range(a..a).ok().unwrap().first();
                        ctx.ck(is_sub(base, &c[e..], a, n - a) && is_sub(base, &mut c[e..], a, n - a), || d(format!("c[{}..]", a)));
                        ctx.ck(is_sub(base, &c[..e], 0, a) && is_sub(base, &mut c[..e], 0, a), || d(format!("c[..{}]", a)));
                        if let Ok(i) = c.vet(a) {
                            ctx.ck(is_at(base, &c[i], a) && is_at(base, &mut c[i], a), || d(format!("c[{}]", a)));
                            ctx.ck(is_sub(base, &c[i..], a, n - a) && is_sub(base, &mut c[i..], a, n - a), || d(format!("c[{}..]", a)));
                            ctx.ck(is_sub(base, &c[..i], 0, a) && is_sub(base, &mut c[..i], 0, a), || d(format!("c[..{}]", a)));
                        }
                        for &b in &ps {
                            if let Ok(r) = c.vet_range(a..b) {
                                ctx.transitions += 1;
                                ctx.nontrivial += 1;
                                ctx.ck(is_sub(base, &c[r], a, b - a) && is_sub(base, &mut c[r], a, b - a), || d(format!("c[{}..{}]", a, b)));
                                ctx.obs(&(a, b));
                            }
                        }
                    }
                    ctx.states += 1;
                });
            });
        }
        for n in huge::LENGTHS {
            go::<u8>(ctx, n);
            go::<u16>(ctx, n);
            go::<B3>(ctx, n);
            go::<Big>(ctx, n);
        }
        go::<u8>(ctx, (1 << 40) + 3);
    }));
    us
}

fn main() {
    harness_main(units)
}
