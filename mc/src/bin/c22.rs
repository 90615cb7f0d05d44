//! Callbacks that panic at any call or answer anything.
use indexing::algorithms::*;
use indexing::scope;
use mc::elem::{live_bad, live_reset, Elem, Tok};
use mc::faults::*;
use mc::*;
use std::cmp::Ordering;

fn tg<T: FElem>(name: impl Into<String>, mixed: bool, f: impl Fn(&mut [T], &mut [T]) + 'static) -> Target<T> {
    Target { name: name.into(), mixed, f: Box::new(f) }
}
fn less<T: FElem>(a: &T, b: &T) -> bool { a.ask2(b, a.key() < b.key()) }
fn pred<T: FElem>(a: &T) -> bool { a.ask2(a, true) }
fn ord<T: FElem>(a: &T) -> Ordering { a.ask3(a) }

/// Sorts whose number of calls is bounded whatever the answers are.
fn sorts<T: FElem + Ord>() -> Vec<Target<T>> {
    let mut v = vec![
        tg("insertion_sort_indexes", false, |v: &mut [T], _| insertion_sort_indexes(v, less)),
        tg("insertion_sort_ranges", false, |v: &mut [T], _| insertion_sort_ranges(v, less)),
        tg("insertion_sort_rust", false, |v: &mut [T], _| insertion_sort_rust(v, less)),
        tg("heapify", false, |v: &mut [T], _| heapify(v)),
    ];
    #[cfg(feature = "ptr")]
    if !T::ZST {
        v.push(tg("insertion_sort_prange_lower", false, |v: &mut [T], _| insertion_sort_prange_lower(v, less)));
        v.push(tg("insertion_sort_pointerindex", false, |v: &mut [T], _| insertion_sort_pointerindex(v, less)));
    }
    v
}
fn quicks<T: FElem + Ord>() -> Vec<Target<T>> {
    let mut v = vec![
        tg("quicksort_range", false, |v: &mut [T], _| quicksort_range(v)),
        tg("quicksort_bounds", false, |v: &mut [T], _| quicksort_bounds(v)),
    ];
    #[cfg(feature = "ptr")]
    if !T::ZST { v.push(tg("quicksort_prange", false, |v: &mut [T], _| quicksort_prange(v))); }
    v
}
/// Read-only: searches and scans of n elements.
fn reads<T: FElem + Ord>(n: usize) -> Vec<Target<T>> {
    let mut v = vec![
        tg("lower_bound", false, |v: &mut [T], u: &mut [T]| { lower_bound(v, &u[0]); }),
        tg("lower_bound_raw_ptr", false, |v: &mut [T], u: &mut [T]| { lower_bound_raw_ptr(v, &u[0]); }),
        tg("binary_search", false, |v: &mut [T], u: &mut [T]| { let _ = binary_search(v, &u[0]); }),
        tg("binary_search_by", false, |v: &mut [T], _| { let _ = binary_search_by(v, ord); }),
    ];
    for i in 0..n {
        v.push(tg(format!("scan_from {}", i), false, move |v: &mut [T], _| scope(v, |v| { let r = v.scan_from(v.vet(i).unwrap(), pred); let _ = &v[r]; })));
        v.push(tg(format!("scan_from_rev {}", i), false, move |v: &mut [T], _| scope(v, |v| { let r = v.scan_from_rev(v.vet(i).unwrap(), pred); let _ = &v[r]; })));
        for j in i..=n {
            v.push(tg(format!("scan_range {}..{}", i, j), false, move |v: &mut [T], _| scope(v, |v| { let (a, b) = v.scan_range(v.vet_range(i..j).unwrap(), pred); let _ = (&v[a], &v[b]); })));
        }
    }
    #[cfg(feature = "ptr")]
    if !T::ZST {
        v.push(tg("lower_bound_prange", false, |v: &mut [T], u: &mut [T]| { lower_bound_prange(v, &u[0]); }));
        v.push(tg("lower_bound_pslice", false, |v: &mut [T], _| { lower_bound_pslice(v, pred); }));
        v.push(tg("binary_search_by_prange", false, |v: &mut [T], _| { let _ = binary_search_by_prange(v, ord); }));
        v.push(tg("binary_search_by_pslice", false, |v: &mut [T], _| { let _ = binary_search_by_pslice(v, ord); }));
        v.push(tg("lower_bound_prange_", false, |v: &mut [T], _| scope(v, |v| { lower_bound_prange_(v.pointer_range(), &v, pred); })));
        v.push(tg("scan_pointer_range", false, |v: &mut [T], _| scope(v, |v| { v.scan_pointer_range(v.pointer_range(), pred); })));
        v.push(tg("scan_pointer_range_rev", false, |v: &mut [T], _| scope(v, |v| { v.scan_pointer_range_rev(v.pointer_range(), pred); })));
        for i in 0..n {
            v.push(tg(format!("scan_tail_ from {}", i), false, move |v: &mut [T], _| scope(v, |v| {
                let p = v.pointer_range().into_iter().nth(i).unwrap();
                v.scan_tail_(p, pred);
            })));
        }
        v.push(tg("scan_tail_ from the end", false, |v: &mut [T], _| scope(v, |v| { v.scan_tail_(v.pointer_range().past_the_end(), pred); })));
    }
    v
}
/// Visitors that rearrange what they are given, and choose whether to go on.
fn visits<T: FElem + Ord>(n: usize) -> Vec<Target<T>> {
    fn sw<T: FElem>(a: &mut T, b: &mut T) {
        a.seen();
        b.seen();
        if choose(2, 1) == 1 { std::mem::swap(a, b); }
        choose(1, 0);
    }
    let mut t = vec![];
    for (a, b) in sub(n) { for (c, d) in sub(n) {
        if T::ZST && (a, c) != (0, 0) { continue; }
        t.push(tg(format!("zip_mut_raw {}..{} and {}..{}", a, b, c, d), false, move |v: &mut [T], _| scope(v, |mut v| {
            let (r, s) = (v.vet_range(a..b).unwrap(), v.vet_range(c..d).unwrap());
            v.zip_mut_raw(r, s, |x, y| unsafe {
                (*x).seen();
                (*y).seen();
                if choose(2, 1) == 1 { std::ptr::swap(x, y); }
                choose(1, 0);
            });
        })));
    } }
    t.push(tg("index_twice in a scope that panics", false, |v: &mut [T], _| scope(v, |mut v| {
        let r = v.range();
        let (a, b) = r.split_in_half();
        if let Ok((x, y)) = v.index_twice(a, b) { for (x, y) in x.iter_mut().zip(y) { sw(x, y); } }
        if let (Ok(x), Ok(y)) = (a.nonempty(), b.nonempty()) { v.swap(x.first(), y.last()); choose(1, 0); v.rotate1_up(y); choose(1, 0); v.rotate1_down(x); }
        choose(1, 0);
    })));
    t.push(tg("twins in a scope that panics", false, |v: &mut [T], u: &mut [T]| scope(v, |mut v| {
        if let Ok(mut w) = v.make_twin(u) {
            for i in v.range() { for j in v.range().into_iter().rev() {
                if choose(2, 1) == 1 { v.swap(i, j); } else { w.swap(j, i); }
                if (i.integer() + j.integer()) % 3 == 0 { choose(1, 0); }
            } if i.integer() == 1 { break; } }
        }
    })));
    #[cfg(feature = "ptr")]
    if !T::ZST {
        use indexing::pointer::zip;
        t.push(tg("pointer zip, both mutable", true, |v: &mut [T], u: &mut [T]| scope(v, |mut v| scope(u, |mut u| {
            zip(v.pointer_range(), &mut v, u.pointer_slice(), &mut u, |x, y| sw(x, y))
        }))));
        t.push(tg("pointer zip, shared and mutable", false, |v: &mut [T], u: &mut [T]| scope(v, |v| scope(u, |mut u| {
            zip(v.pointer_slice(), &v, u.pointer_range(), &mut u, |x, y| { x.seen(); y.seen(); choose(2, 1); })
        }))));
        for i in 0..=n {
            t.push(tg(format!("split_container_at_pointer {}", i), false, move |v: &mut [T], _| scope(v, |mut v| {
                use indexing::proof::Provable;
                let p = v.pointer_range().into_iter().map(|p| p.no_proof()).chain([v.pointer_range().past_the_end()]).nth(i).unwrap();
                v.split_container_at_pointer(p, |mut a, ra, mut b, rb| {
                    choose(1, 0);
                    zip(ra, &mut a, rb, &mut b, |x, y| sw(x, y));
                    if let (Ok(x), Ok(y)) = (ra.nonempty(), rb.nonempty()) { a.rotate1_prange(x); choose(1, 0); b.swap_ptr(y.first(), y.last()); }
                    choose(1, 0);
                })
            })));
        }
    }
    t
}
fn sub(n: usize) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for a in 0..=n { for b in a..=n { v.push((a, b)); } }
    v
}

fn full<T: FElem + Ord>(us: &mut Vec<Unit>, ns: std::ops::RangeInclusive<usize>, what: &'static str, aux: fn(usize) -> usize, mk: fn(usize) -> Vec<Target<T>>) {
    for n in ns {
        us.push(unit(format!("{} with every answer: {} {}", what, n, T::NAME), move |ctx| {
            let keys: Vec<usize> = (0..n).collect();
            for t in mk(n) { dfs(ctx, &t, &keys, aux(n), usize::MAX, &[Cont::First], 4000); }
        }));
    }
}
fn merges<T: FElem + Ord>(us: &mut Vec<Unit>, from: usize, to: usize) {
    for n in from..=to {
        us.push(unit(format!("merges with every answer: {} {}", n, T::NAME), move |ctx| {
            let keys: Vec<usize> = (0..n).collect();
            for l in 0..=n { for extra in 0..=1 {
                let t = tg(format!("merge_internal_indices split at {}", l), true, move |v: &mut [T], u: &mut [T]| { let _ = merge_internal_indices(v, l, u); });
                dfs(ctx, &t, &keys, l + extra, usize::MAX, &[Cont::First], 4000);
                let t = tg(format!("merge_internal_ranges split at {}", l), true, move |v: &mut [T], u: &mut [T]| { let _ = merge_internal_ranges(v, l, u); });
                dfs(ctx, &t, &keys, l + extra, usize::MAX, &[Cont::First], 4000);
            } }
        }));
    }
}

/// Storage owned by the scope, and closures that own something.
fn owned(ctx: &mut Ctx, t: Tier) {
    for n in 0..=t.pick(3, 6, 9) {
        for at in 0..=n { for kind in (if cfg!(feature = "std") { 0 } else { 2 })..4 { for stop in 0..12 {
            let d = |m: &str| format!("scope over a Vec of {} ({}), insertion at {}, panic at step {}: {}", n, ["by value", "by reference", "by value, never grown", "with an owned twin"][kind], at, stop, m);
            ctx.case(|| d(""));
            ctx.transitions += 1;
            ctx.states += 1;
            live_reset();
            let mut v: Vec<Tok> = (0..n).map(Elem::mk).collect();
            let held = Tok::mk(100);
            fn step(k: &mut usize, stop: usize) { if *k == stop { inject() } *k += 1; }
            let mut k = 0;
            let r = {
                let k = &mut k;
                let v = &mut v;
                guarded(move || match kind {
                    #[cfg(feature = "std")]
                    0 | 1 => {
                        macro_rules! body { ($v:expr) => { scope($v, move |c| {
                            let held = held;
                            step(k, stop);
                            let mut c = c.only_index();
                            let i = c.push(Tok::mk(50));
                            step(k, stop);
                            let e = c.vet_range(at..at).unwrap().first();
                            c.insert(e, Tok::mk(51));
                            step(k, stop);
                            let e = c.vet_range(at + 1..at + 1).unwrap().first();
                            c.insert(e, Tok::mk(52));
                            step(k, stop);
                            let l = c.vet(c.len() - 1).unwrap();
                            c.swap(i, l);
                            step(k, stop);
                            let r = c.range().nonempty().unwrap();
                            c.rotate1_up(r);
                            step(k, stop);
                            c.rotate1_down(r);
                            step(k, stop);
                            held
                        }) } }
                        if kind == 0 { body!(std::mem::take(v)) } else { body!(v) }
                    }
                    3 => scope(&mut v[..], |c| {
                        let held = held;
                        step(k, stop);
                        let w = c.make_twin(store::Scattered::<Tok>::new(n));
                        step(k, stop);
                        drop(w);
                        if let Ok(_) = c.make_twin(store::Scattered::<Tok>::new(n + 1)) { fail("twin of unequal length accepted"); }
                        step(k, stop);
                        let _ = c.len();
                        held
                    }),
                    _ => scope(&mut v[..], |mut c| {
                        let held = held;
                        for i in c.range() { for j in c.range() { c.swap(i, j); step(k, stop); } }
                        held
                    }),
                })
            };
            ctx.obs(&(n, at, kind, stop, r.is_ok()));
            if let Err(false) = r { fail(d(&format!("panicked: {}", last_panic()))); }
            if elem::live_of(100) != r.is_ok() as i64 { fail(d("the closure's own value was not dropped exactly once")); }
            let was_ok = r.is_ok();
            drop(r);
            let mut ids: Vec<usize> = v.iter().map(|x| x.id()).collect();
            let len = ids.len();
            ids.sort();
            ids.dedup();
            if ids.len() != len { std::mem::forget(v); fail(d("an element is there twice")); }
            let want = if kind == 0 { 0 } else { n + if kind == 1 { k.min(3) } else { 0 } };
            if len != want && !(was_ok && kind == 1 && len == n + 3) { fail(d(&format!("{} elements remain instead of {}", len, want))); }
            if elem::live_total() != len as i64 || ids.iter().any(|&i| elem::live_of(i) != 1) { std::mem::forget(v); fail(d("an element was lost or dropped twice")); }
            drop(v);
            if let Some((i, c)) = live_bad(0, 0) { fail(d(&format!("element {} is live {} times after everything was dropped", i, c))); }
            ctx.nontrivial += !was_ok as u64;
        } } }
    }
}

fn units(t: Tier) -> Vec<Unit> {
    let mut us = vec![];
    full::<FB>(&mut us, 0..=t.pick(4, 6, 7), "sorts", |_| 0, |_| sorts());
    full::<FT>(&mut us, 0..=t.pick(4, 7, 8), "sorts", |_| 0, |_| sorts());
    full::<FW>(&mut us, 0..=t.pick(4, 6, 7), "sorts", |_| 0, |_| sorts());
    full::<FZ>(&mut us, 0..=t.pick(4, 6, 7), "sorts", |_| 0, |_| sorts());
    full::<FB>(&mut us, 0..=t.pick(4, 5, 6), "two-container sort", |n| n, |_| vec![tg("insertion_sort2_indexes", false, |v: &mut [FB], u: &mut [FB]| insertion_sort2_indexes(v, u, less))]);
    full::<FT>(&mut us, 0..=t.pick(4, 6, 7), "two-container sort", |n| n, |_| vec![tg("insertion_sort2_indexes", false, |v: &mut [FT], u: &mut [FT]| insertion_sort2_indexes(v, u, less))]);
    full::<FT>(&mut us, 1..=t.pick(3, 4, 5), "two-container sort of unequal lengths", |n| n - 1, |_| vec![tg("insertion_sort2_indexes", false, |v: &mut [FT], u: &mut [FT]| insertion_sort2_indexes(v, u, less))]);
    merges::<FB>(&mut us, 1, t.pick(5, 8, 10));
    merges::<FT>(&mut us, 1, t.pick(5, 10, 12));
    merges::<FW>(&mut us, 1, t.pick(4, 7, 9));
    merges::<FZ>(&mut us, 1, t.pick(4, 7, 9));
    full::<FB>(&mut us, 0..=t.pick(3, 6, 8), "searches and scans", |_| 1, reads);
    full::<FT>(&mut us, t.pick(0..=0, 7..=12, 7..=18), "searches and scans", |_| 1, reads);
    full::<FZ>(&mut us, 0..=t.pick(2, 5, 7), "searches and scans", |_| 1, reads);
    full::<FB>(&mut us, 0..=t.pick(2, 4, 5), "visitors", |n| n, visits);
    full::<FW>(&mut us, 0..=t.pick(2, 3, 4), "visitors", |n| n, visits);
    full::<FZ>(&mut us, 0..=t.pick(2, 4, 5), "visitors", |n| n, visits);
    full::<FT>(&mut us, 0..=t.pick(2, 4, 5), "visitors, unequal lengths", |n| if n % 2 == 0 { n + 1 } else { n - 1 }, |n| { let mut v = visits::<FT>(n); v.retain(|t| t.name.contains("zip,") || t.name.contains("twins")); v });
    us.push(unit("owned storage and closures", move |ctx| owned(ctx, t)));

    // quicksorts need not stop on inconsistent answers: bounded choices, then a panic
    for n in 0..=t.pick(6, 8, 9) {
        us.push(unit(format!("quicksorts with every answer to the first calls: {}", n), move |ctx| {
            let depth = t.pick(7, 11, 14);
            for q in quicks::<FB>() { for keys in [(0..n).collect::<Vec<_>>(), (0..n).rev().collect(), vec![1; n]] {
                dfs(ctx, &q, &keys, 0, depth, &[Cont::Real, Cont::First, Cont::Last, Cont::Alternate], 400);
            } }
        }));
    }
    for n in 5..=t.pick(5, 6, 7) {
        let parts = if n == 5 { 4 } else { 16 };
        for p in 0..parts {
            us.push(unit(format!("quicksorts, all weak orders of {} with deviations, part {}/{}", n, p + 1, parts), move |ctx| {
                for q in quicks::<FT>() {
                    let mut i = 0;
                    gen::weak_orders(n, &mut |k| {
                        i += 1;
                        if (i / 8) % parts != p { return; }
                        deviate(ctx, &q, k, 0, if n == 5 { t.pick(1, 2, 3) } else if n == 6 { t.pick(1, 1, 2) } else { 1 }, true, 400)
                    });
                }
            }));
        }
    }
    for n in t.pick(vec![25], vec![25, 26, 30], vec![25, 26, 27, 30, 33]) {
        for (b, (name, keys)) in gen::bases(n).into_iter().enumerate() {
            us.push(unit(format!("quicksorts, {} of {} with deviations", name, n), move |ctx| {
                let _ = b;
                for q in quicks::<FB>() { deviate(ctx, &q, &keys, 0, 1, true, 3000); }
                if n <= t.pick(0, 25, 25) { for q in quicks::<FT>() { deviate(ctx, &q, &keys, 0, 2, false, 450); } }
            }));
        }
        us.push(unit(format!("quicksorts, {} zero-sized", n), move |ctx| {
            for q in quicks::<FZ>() { deviate(ctx, &q, &vec![0; n], 0, 1, true, 3000); }
        }));
        us.push(unit(format!("quicksorts, all answers alike, {}", n), move |ctx| {
            for q in quicks::<FW>() { for (_, k) in gen::bases(n) { for cont in [Cont::First, Cont::Last, Cont::Alternate] {
                for h in [1, 2, 3, 5, 10, 20, 26, 27, 28, 50, 51, 52, 53, 54, 100, 1000, 3000] {
                    exec(ctx, &q, &k, 0, Script::new(vec![], 0, cont, vec![], h));
                }
            } } }
        }));
    }
    // longer inputs of the others
    for n in t.pick(vec![8], vec![8, 9, 12, 16, 17, 24, 33], vec![8, 9, 12, 16, 17, 24, 33, 40]) {
        us.push(unit(format!("sorts, patterns of {} with deviations", n), move |ctx| {
            for s in sorts::<FT>() { for (_, keys) in gen::bases(n) { deviate(ctx, &s, &keys, 0, if n <= 9 { 2 } else { 1 }, n <= 12 || t == Tier::Thorough, 4000); } }
        }));
        us.push(unit(format!("two-container sort and merges, patterns of {} with deviations", n), move |ctx| {
            let s = tg("insertion_sort2_indexes", false, |v: &mut [FB], u: &mut [FB]| insertion_sort2_indexes(v, u, less));
            for (_, keys) in gen::bases(n) {
                deviate(ctx, &s, &keys, n, 1, n <= 16, 4000);
                for l in [1, n / 3, n / 2, n - 2, n - 1] {
                    let m = tg(format!("merge_internal_indices split at {}", l), true, move |v: &mut [FB], u: &mut [FB]| { let _ = merge_internal_indices(v, l, u); });
                    deviate(ctx, &m, &keys, l, 1, true, 4000);
                    let m = tg(format!("merge_internal_ranges split at {}", l), true, move |v: &mut [FB], u: &mut [FB]| { let _ = merge_internal_ranges(v, l, u); });
                    deviate(ctx, &m, &keys, l + 1, 1, true, 4000);
                }
            }
        }));
    }
    us
}

fn main() {
    harness_main(units)
}
