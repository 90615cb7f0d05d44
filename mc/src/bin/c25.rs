//! Pointer-based algorithms.
#[cfg(feature = "ptr")]
mod go {
    use indexing::algorithms::*;
    use indexing::container_traits::Contiguous;
    use indexing::pointer::{PIndex, PRange, PSlice};
    use indexing::proof::Provable;
    use indexing::{scope, Container, Unknown};
    use mc::elem::*;
    use mc::searches::*;
    use mc::sorts::*;
    use mc::*;

    struct Ptr;
    impl Family for Ptr {
        fn sorters<T: SElem>() -> Vec<Sorter<T>> {
            // pointer-based: only for elements that occupy space
            if T::ZST { return vec![]; }
            fn s<T>(name: &'static str, stable: bool, desc: bool, f: fn(&mut [T])) -> Sorter<T> { Sorter { name, stable, desc, f } }
            vec![
                s("quicksort_prange", false, false, |v| quicksort_prange(v)),
                // inserts at the lower bound, hence before its equals
                s("insertion_sort_prange_lower", false, false, |v| insertion_sort_prange_lower(v, |a, b| a.key() < b.key())),
                s("insertion_sort_pointerindex", true, false, |v| insertion_sort_pointerindex(v, |a, b| a.key() < b.key())),
                s("insertion_sort_prange_lower (descending)", false, true, |v| insertion_sort_prange_lower(v, |a, b| a.key() > b.key())),
                s("insertion_sort_pointerindex (descending)", true, true, |v| insertion_sort_pointerindex(v, |a, b| a.key() > b.key())),
            ]
        }
    }

    /// The pointer to element a (or the end), by halving.
    fn at<'id, T, A: Contiguous<Item = T>>(c: &Container<'id, A>, a: usize) -> PIndex<'id, T, Unknown> {
        let (mut r, mut o) = (c.pointer_range(), 0);
        if a == r.len() { return r.past_the_end(); }
        while r.len() > 1 {
            let (x, y) = r.split_in_half();
            if a - o < x.len() { r = x } else { o += x.len(); r = y }
        }
        r.first()
    }
    fn pr<'id, T, A: Contiguous<Item = T>>(c: &Container<'id, A>, a: usize, b: usize) -> PRange<'id, T> {
        if c.len() > 1000 && a < b { if let Ok(r) = c.nonempty_range(at(c, a), at(c, b)) { return r.no_proof(); } }
        if c.len() > 1000 { let p = at(c, a); return c.scan_pointer_range(c.split_at_pointer(p).1, |_| false).0; }
        let mut i = c.pointer_range().into_iter();
        for _ in 0..a { i.next(); }
        while i.len() > b - a { i.next_back(); }
        i.into_range()
    }
    fn ps<'id, T, A: Contiguous<Item = T>>(c: &Container<'id, A>, a: usize, b: usize) -> PSlice<'id, T> { PSlice::from(pr(c, a, b)) }

    impl SFamily for Ptr {
        fn lower<const W: usize>() -> Vec<Lower<W>> {
            fn lt<const W: usize>(x: &Probe<W>) -> bool { *x < key() }
            vec![
                Lower { name: "lower_bound_prange", whole: true, f: |v, _, _| lower_bound_prange(v, &key()) },
                Lower { name: "lower_bound_pslice", whole: true, f: |v, _, _| lower_bound_pslice(v, lt) },
                Lower { name: "lower_bound_prange_", whole: false, f: |v, a, b| scope(v, |c| c.distance_to(lower_bound_prange_(pr(&c, a, b), &c, lt))) },
                Lower { name: "lower_bound_pslice_", whole: false, f: |v, a, b| scope(v, |c| c.distance_to(lower_bound_pslice_(ps(&c, a, b), &c, lt))) },
                Lower { name: "lower_bound_prange_ (non-empty)", whole: false, f: |v, a, b| scope(v, |c| match pr(&c, a, b).nonempty() { Ok(r) => c.distance_to(lower_bound_prange_(r, &c, lt)), Err(_) => a }) },
                Lower { name: "lower_bound_pslice_ (non-empty)", whole: false, f: |v, a, b| scope(v, |c| match ps(&c, a, b).nonempty() { Ok(r) => c.distance_to(lower_bound_pslice_(r, &c, lt)), Err(_) => a }) },
            ]
        }
        fn binary<const W: usize>() -> Vec<Binary<W>> {
            vec![
                Binary { name: "binary_search_by_prange", whole: true, f: |v, _, _| binary_search_by_prange(v, ask) },
                Binary { name: "binary_search_by_pslice", whole: true, f: |v, _, _| binary_search_by_pslice(v, ask) },
                Binary { name: "binary_search_by_prange_", whole: false, f: |v, a, b| scope(v, |c| match binary_search_by_prange_(pr(&c, a, b), &c, ask) {
                    // the pointer found is dereferenceable, and is the element
                    Ok(p) => { let i = c.distance_to(p); if !is_at(v.as_ptr(), &c[p], i) { fail("the pointer found is not the element") } Ok(i) }
                    Err(p) => Err(c.distance_to(p)),
                }) },
                Binary { name: "binary_search_by_pslice_", whole: false, f: |v, a, b| scope(v, |c| match binary_search_by_pslice_(ps(&c, a, b), &c, ask) {
                    Ok(p) => { let i = c.distance_to(p); if !is_at(v.as_ptr(), &c[p], i) { fail("the pointer found is not the element") } Ok(i) }
                    Err(p) => Err(c.distance_to(p)),
                }) },
            ]
        }
    }

    /// The copies, for every pair of lengths.
    fn copies<T: Elem + Copy + PartialEq + 'static>(ctx: &mut Ctx, n: usize, m: usize) {
        let fs: [(&str, fn(&[T], &mut [T])); 2] = [("copy_prange", copy_prange), ("copy", copy)];
        for (name, f) in fs {
            let d = |s: &str| format!("{} of {} {} to {}: {}", name, n, T::NAME, m, s);
            ctx.case(|| d(""));
            ctx.transitions += 1;
            let src = Guarded::<T>::new(n);
            // the target's elements have ids from 1000
            let mut dst: Vec<T> = (0..m + 2 * PAD).map(|i| T::mk(120 + i)).collect();
            if guarded(|| f(src.mid(), &mut dst[PAD..PAD + m])).is_err() { fail(d(&format!("panicked: {}", last_panic()))) }
            ctx.ck(src.ids() == (0..n).map(|i| T::mk_id(i)).collect::<Vec<_>>() && src.guards_ok(), || d("the source changed"));
            for (i, x) in dst.iter().enumerate() {
                let want = if i >= PAD && i - PAD < n.min(m) { T::mk_id(i - PAD) } else { T::mk_id(120 + i) };
                if x.id() != want { fail(d(&format!("target element {} is {} instead of {}", i as isize - PAD as isize, x.id(), want))); }
            }
            ctx.obs(&(n, m, name));
        }
        ctx.states += 1;
        ctx.nontrivial += (n > 0 && m > 0) as u64;
    }
    /// Dot products: basis vectors separate every pair of positions.
    fn dots(ctx: &mut Ctx, xs: &[i32], ys: &[i32], what: &dyn Fn() -> String) {
        let fs: [(&str, fn(&[i32], &[i32]) -> i32); 2] = [("zip_dot_i32_prange", zip_dot_i32_prange), ("zip_dot_i32", zip_dot_i32)];
        let want: i32 = (0..xs.len().min(ys.len())).map(|i| xs[i] * ys[i]).sum();
        for (name, f) in fs {
            ctx.case(|| format!("{} of {}", name, what()));
            ctx.transitions += 1;
            let r = guarded(|| f(xs, ys));
            if r != Ok(want) { fail(format!("{} of {}: {:?} instead of {}", name, what(), r, want)); }
        }
        ctx.obs(&want);
    }

    pub fn units(t: Tier) -> Vec<Unit> {
        let mut us: Vec<Unit> = sorts::units::<Ptr>(t).into_iter().filter(|u| !u.name.contains("zero-sized")).map(|u| Unit { name: format!("sorts: {}", u.name), run: u.run }).collect();
        us.extend(searches::units::<Ptr>(t).into_iter().map(|u| Unit { name: format!("searches: {}", u.name), run: u.run }));
        us.push(unit("copies", move |ctx| {
            let mx = t.pick(6, 40, 70);
            for n in 0..=mx { for m in 0..=mx {
                copies::<u8>(ctx, n, m);
                copies::<u16>(ctx, n, m);
                copies::<u32>(ctx, n, m);
                copies::<u64>(ctx, n, m);
                copies::<B3>(ctx, n, m);
                copies::<Big>(ctx, n, m);
                copies::<Al64>(ctx, n, m);
                copies::<Vast>(ctx, n, m);
            } }
        }));
        us.push(unit("dot products", move |ctx| {
            // guard values around both slices that would be seen in the result
            let mx = t.pick(5, 16, 24);
            for n in 0..=mx { for m in 0..=mx {
                ctx.states += 1;
                ctx.nontrivial += (n > 0 && m > 0) as u64;
                for i in 0..=n { for j in 0..=m {
                    let mut x = vec![100_000; n + 2 * PAD];
                    let mut y = vec![100_000 / 7; m + 2 * PAD];
                    x[PAD..PAD + n].fill(0);
                    y[PAD..PAD + m].fill(0);
                    if i < n { x[PAD + i] = 3 + i as i32; } else { for k in 0..n { x[PAD + k] = k as i32 + 1; } }
                    if j < m { y[PAD + j] = 5 - j as i32; } else { for k in 0..m { y[PAD + k] = 3 * k as i32 - 4; } }
                    dots(ctx, &x[PAD..PAD + n], &y[PAD..PAD + m], &|| format!("{:?} and {:?}", &x[PAD..PAD + n], &y[PAD..PAD + m]));
                } }
            } }
            for v in [i32::MAX, i32::MIN, -1, 46340, -46341] {
                let u = if v.unsigned_abs() <= 46340 { v } else { 1 };
                dots(ctx, &[v], &[u], &|| format!("[{}] and [{}]", v, u));
                dots(ctx, &[v, 0], &[u, 7, 9], &|| format!("[{}, 0] and [{}, 7, 9]", v, u));
            }
        }));
        us.push(unit("long copies and dot products", move |ctx| {
            for n in t.pick(vec![64], vec![63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4096], vec![63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4095, 4096, 4097, 65536]) { for m in [0, 1, n - 1, n, n + 1, 2 * n] {
                copies::<u16>(ctx, n, m);
                copies::<u32>(ctx, n, m);
                copies::<Big>(ctx, n, m);
                let x: Vec<i32> = (0..n as i32).map(|i| i % 13 - 6).collect();
                let y: Vec<i32> = (0..m as i32).map(|i| i % 17 - 5).collect();
                dots(ctx, &x, &y, &|| format!("lengths {} and {}", n, m));
                dots(ctx, &y, &x, &|| format!("lengths {} and {}", m, n));
            } }
        }));
        us.push(unit("longer copies and dot products", move |ctx| {
            for n in t.pick(vec![], vec![65535, 65536, 65537, 70_000, 131_075], vec![65535, 65536, 65537, 70_000, 131_075, 1 << 20, (1 << 24) + 3]) { for m in [n - 1, n, n + 1] {
                copies::<u8>(ctx, n, m);
                copies::<u32>(ctx, n, m);
                copies::<Big>(ctx, n, m);
                let x: Vec<i32> = (0..n as i32).map(|i| i % 13 - 6).collect();
                let y: Vec<i32> = (0..m as i32).map(|i| i % 17 - 5).collect();
                dots(ctx, &x, &y, &|| format!("lengths {} and {}", n, m));
            } }
        }));
        us
    }
}

fn main() {
    #[cfg(feature = "ptr")]
    mc::harness_main(go::units);
    #[cfg(not(feature = "ptr"))]
    mc::harness_main(|_| vec![]);
}
