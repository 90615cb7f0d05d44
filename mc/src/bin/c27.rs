//! Observations of the index-based interface, to be compared between build configurations.
//! Nothing here depends on the features of this crate.
use indexing::algorithms::*;
use indexing::scope;
use mc::elem::{B3, Elem};
use mc::ops::{explore, Cfg};
use mc::sorts::*;
use mc::*;

/// Run, and record the outcome: a value or a panic.
fn o<R: std::hash::Hash>(ctx: &mut Ctx, d: impl FnOnce() -> String, f: impl FnOnce() -> R) {
    ctx.case(d);
    ctx.transitions += 1;
    match guarded(f) { Ok(r) => { ctx.nontrivial += 1; ctx.obs(&(true, r)) } Err(_) => ctx.obs(&(false, ())) }
}

fn algebra(t: Tier) -> Vec<Unit> {
    let mut us = vec![];
    let all = 63;
    for n in 0..=t.pick(6, 12, 20) {
        us.push(unit(format!("ranges and indices, n={}", n), move |ctx| {
            let data: Vec<u32> = (0..n as u32).collect();
            let m = usize::MAX;
            let h = isize::MAX as usize;
            let mut ks: Vec<usize> = (0..=n + 2).collect();
            ks.extend([m, m - 1, m - n, (m - n).saturating_add(1), h, h + 1, m - n / 2, m - 2]);
            ks.sort();
            ks.dedup();
            scope(&data[..], |c| explore(ctx, &c, Cfg { mode: Mode::Digest, groups: all, closure: true, seeds: (0..=n).collect(), ks, pairs: true, long_scans: true }));
        }));
    }
    for n in closures::big_lengths(t) {
        us.push(unit(format!("ranges and indices, boundary n={}", n), move |ctx| {
            let v: &[()] = unsafe { std::slice::from_raw_parts(std::ptr::NonNull::dangling().as_ptr(), n) };
            let mut seeds = gen::points(n);
            if t != Tier::Thorough {
                let keep = [0, 1, 2, n / 2, n / 2 + 1, n - 2, n - 1, n, 256, 65536, 1 << 32];
                seeds.retain(|x| keep.contains(x));
            }
            scope(v, |c| explore(ctx, &c, Cfg { mode: Mode::Digest, groups: all, closure: false, seeds, ks: gen::args(n), pairs: true, long_scans: false }));
        }));
    }
    us
}

/// Access, rearrangement, growth and twins over every range.
fn access<T: Elem>(ctx: &mut Ctx, n: usize) {
    let w = |s: String| move || format!("n={} {}: {}", n, T::NAME, s);
    let new = || -> Vec<T> { (0..n).map(T::mk).collect() };
    let ids = |v: &[T]| -> Vec<usize> { v.iter().map(|x| x.id()).collect() };
    ctx.states += 1;
    for a in 0..=n { for b in a..=n {
        o(ctx, w(format!("reading {}..{}", a, b)), || scope(&new()[..], |c| {
            let r = c.vet_range(a..b).unwrap();
            let e = r.first();
            (ids(&c[r]), ids(&c[e..]), ids(&c[..e]), ids(&c[..]), ids(&c[c.range_of(e..)]))
        }));
        o(ctx, w(format!("rotating {}..{}", a, b)), || {
            let mut v = new();
            let x = scope(&mut v[..], |mut c| {
                let r = c.vet_range(a..b).unwrap();
                match r.nonempty() { Ok(r) => { c.rotate1_up(r); let x = ids(&c[..]); c.rotate1_down(r); c.rotate1_down(r); x } Err(_) => vec![] }
            });
            (x, ids(&v))
        });
        for x in 0..=n { for y in x..=n {
            o(ctx, w(format!("{}..{} and {}..{} at once", a, b, x, y)), || {
                let mut v = new();
                let z = scope(&mut v[..], |mut c| {
                    let (r, s) = (c.vet_range(a..b).unwrap(), c.vet_range(x..y).unwrap());
                    let mut k = vec![];
                    c.zip_mut_raw(r, s, |p, q| unsafe { k.push(((*p).id(), (*q).id())); std::ptr::swap(p, q) });
                    let z = match c.index_twice(r, s) { Ok((p, q)) => { for (p, q) in p.iter_mut().zip(q.iter_mut()) { std::mem::swap(p, q) } Some((ids(p), ids(q))) } Err(_) => None };
                    (k, z, r.join(s).is_ok())
                });
                (z, ids(&v))
            });
        } }
        o(ctx, w(format!("subdividing {}..{}", a, b)), || scope(&new()[..], |c| {
            let r = c.vet_range(a..b).unwrap();
            (1..=n + 2).map(|k| r.subdivide(k).map(|x| (x.start(), x.end())).collect::<Vec<_>>()).collect::<Vec<_>>()
        }));
        o(ctx, w(format!("iterating {}..{}", a, b)), || scope(&new()[..], |c| {
            let r = c.vet_range(a..b).unwrap();
            (r.into_iter().map(|i| i.integer()).collect::<Vec<_>>(), r.into_iter().rev().map(|i| i.integer()).collect::<Vec<_>>())
        }));
    } }
    for i in 0..n { for j in 0..n {
        o(ctx, w(format!("swapping {} and {}", i, j)), || {
            let mut v = new();
            scope(&mut v[..], |mut c| { let (i, j) = (c.vet(i).unwrap(), c.vet(j).unwrap()); c.swap(i, j); });
            ids(&v)
        });
        o(ctx, w(format!("scans from {} stopping at {}", i, j)), || scope(&new()[..], |c| {
            let p = c.vet(i).unwrap();
            let f = |x: &T| x.id() != T::mk(j).id();
            let (r, s) = (c.scan_from(p, f), c.scan_from_rev(p, f));
            let (u, v) = c.scan_range(c.range(), f);
            ((r.start(), r.end()), (s.start(), s.end()), (u.start(), u.end()), (v.start(), v.end()))
        }));
    } }
    for m in 0..=n + 1 {
        o(ctx, w(format!("twin of length {}", m)), || {
            let mut u: Vec<u16> = (0..m as u16).collect();
            let r = scope(&new()[..], |c| match c.make_twin(&mut u[..]) { Ok(mut t) => { if let Ok(r) = c.range().nonempty() { t.rotate1_up(r); t.swap(r.first(), r.upper_middle()); } true } Err(_) => false });
            (r, u)
        });
    }
    o(ctx, w("vetting".into()), || scope(&new()[..], |c| {
        let ks = gen::args(n);
        let a: Vec<bool> = ks.iter().map(|&k| c.vet(k).is_ok()).collect();
        let mut b = vec![];
        for &x in &ks { for &y in &ks { b.push(c.vet_range(x..y).is_ok()); } }
        (a, b)
    }));
}

/// Containers and inputs of a large length.
fn long(ctx: &mut Ctx, n: usize) {
    ctx.states += 1;
    let w = |s: &'static str| move || format!("n={}: {}", n, s);
    let ps: Vec<usize> = [0, 1, 2, 254, 255, 256, 257, 65534, 65535, 65536, 65537, n / 2, n - 2, n - 1, n].into_iter().filter(|&p| p <= n).collect();
    let new = || -> Vec<u32> { (0..n as u32).collect() };
    for &a in &ps { for &b in &ps {
        if a > b { continue; }
        let d = |s: &'static str| move || format!("n={}: {} {}..{}", n, s, a, b);
        o(ctx, d("rotating and swapping"), || {
            let mut v = new();
            scope(&mut v[..], |mut c| if let Ok(r) = c.vet_range(a..b).unwrap().nonempty() { c.rotate1_up(r); c.swap(r.first(), r.upper_middle()); if r.len() > 2 { c.rotate1_down(r); c.rotate1_down(r); } });
            v
        });
        o(ctx, d("subdividing and iterating"), || scope(&new()[..], |c| {
            let r = c.vet_range(a..b).unwrap();
            let parts: Vec<_> = [1, 2, 3, 255, 256, 257, 65535, 65536, 65537].iter().map(|&k| r.subdivide(k).map(|x| (x.start(), x.end())).collect::<Vec<_>>()).collect();
            (parts, r.into_iter().map(|i| i.integer()).fold((0usize, 0usize), |(s, k), i| (s.wrapping_mul(31).wrapping_add(i), k + 1)), r.into_iter().rev().nth(b / 2).map(|i| i.integer()))
        }));
        o(ctx, d("pairing"), || {
            let mut v = new();
            let x = scope(&mut v[..], |mut c| {
                let (r, s) = (c.vet_range(0..a).unwrap(), c.vet_range(b..n).unwrap());
                let mut k = 0u64;
                c.zip_mut_raw(r, s, |p, q| unsafe { k = k.wrapping_mul(31).wrapping_add((*p ^ *q) as u64); *p += 1; *q += 2 });
                c.index_twice(r, s).map(|(p, q)| (p.len(), q.len(), k)).ok()
            });
            (x, v)
        });
        o(ctx, d("scanning"), || scope(&new()[..], |c| {
            let e = |r: indexing::Range<'_, _>| (r.start(), r.end());
            let f = |x: &u32| *x as usize != b;
            let g = |x: &u32| *x as usize != a;
            let (x, y) = c.scan_range(c.vet_range(a..n).unwrap(), f);
            (c.vet(a).ok().map(|i| { let r = c.scan_from(i, f); (r.start(), r.end()) }), c.vet(b).ok().map(|i| { let r = c.scan_from_rev(i, g); (r.start(), r.end()) }), e(x), e(y))
        }));
    } }
    let k = |keys: &[usize]| -> Vec<K> { keys.iter().enumerate().map(|(i, &x)| K::mk(x, i)).collect() };
    let tg = |v: &[K]| -> Vec<usize> { v.iter().map(|x| x.tag()).collect() };
    let asc: Vec<usize> = (0..n).map(|i| i / 2).collect();
    let mixed: Vec<usize> = (0..n).map(|i| i * 40503 % n).collect();
    for &(i, j) in &[(0, n - 1), (n - 1, 0), (n / 2, n - 1), (1, 255)] {
        let mut keys = asc.clone();
        let x = keys.remove(i);
        keys.insert(j, x);
        for s in All::sorters::<K>() {
            if s.name.starts_with("quicksort") { continue; }
            o(ctx, || format!("n={}: {} with {} moved to {}", n, s.name, i, j), || { let mut v = k(&keys); (s.f)(&mut v); tg(&v) });
        }
        o(ctx, || format!("n={}: insertion_sort2_indexes with {} moved to {}", n, i, j), || { let (mut v, mut u) = (k(&keys), new()); insertion_sort2_indexes(&mut v, &mut u, |a, b| a.key() < b.key()); (tg(&v), u) });
    }
    o(ctx, w("quicksort_range"), || { let mut v = k(&mixed); quicksort_range(&mut v); tg(&v) });
    o(ctx, w("quicksort_bounds"), || { let mut v = k(&mixed); quicksort_bounds(&mut v); tg(&v) });
    o(ctx, w("heapify"), || { let mut v = k(&mixed); heapify(&mut v); tg(&v) });
    for &l in &ps {
        let mut keys = mixed.clone();
        keys[..l].sort();
        keys[l..].sort();
        for b in [l, l.saturating_sub(1), l + 2] {
            o(ctx, || format!("n={}: merge_internal_indices at {}, buffer {}", n, l, b), || { let (mut v, mut u) = (k(&keys), k(&asc[..b.min(n)])); let r = merge_internal_indices(&mut v, l, &mut u).is_ok(); (r, tg(&v), tg(&u)) });
            o(ctx, || format!("n={}: merge_internal_ranges at {}, buffer {}", n, l, b), || { let (mut v, mut u) = (k(&keys), k(&asc[..b.min(n)])); let r = merge_internal_ranges(&mut v, l, &mut u).is_ok(); (r, tg(&v), tg(&u)) });
        }
    }
    let odd: Vec<u32> = (0..n as u32).map(|i| 2 * i + 1).collect();
    for &p in &ps { for q in 0..3 { search(ctx, "odd numbers", &odd, &((2 * p + q) as u32), &|| format!("{} of them for {}", n, 2 * p + q)); } }
    for &m in &ps { o(ctx, || format!("copy of {} to {}", n, m), || { let mut d = vec![9u32; m]; copy(&odd, &mut d); d }); }
}

struct All;
impl Family for All {
    fn sorters<T: SElem>() -> Vec<Sorter<T>> {
        fn s<T>(name: &'static str, f: fn(&mut [T])) -> Sorter<T> { Sorter { name, stable: false, desc: false, f } }
        vec![
            s("quicksort_range", |v| quicksort_range(v)),
            s("quicksort_bounds", |v| quicksort_bounds(v)),
            s("insertion_sort_indexes", |v| insertion_sort_indexes(v, |a, b| a.key() < b.key())),
            s("insertion_sort_ranges", |v| insertion_sort_ranges(v, |a, b| a.key() < b.key())),
            s("insertion_sort_rust", |v| insertion_sort_rust(v, |a, b| a.key() < b.key())),
            s("heapify", |v| heapify(v)),
        ]
    }
}
fn sort<T: SElem>(ctx: &mut Ctx, ss: &[Sorter<T>], keys: &[usize]) {
    ctx.states += 1;
    for s in ss {
        o(ctx, || format!("{} of {} {:?}", s.name, T::NAME, keys), || {
            let mut v: Vec<T> = keys.iter().enumerate().map(|(i, &k)| T::mk(k, i)).collect();
            (s.f)(&mut v);
            v.iter().map(|x| x.tag()).collect::<Vec<_>>()
        });
    }
    o(ctx, || format!("insertion_sort2_indexes of {} {:?}", T::NAME, keys), || {
        let mut v: Vec<T> = keys.iter().enumerate().map(|(i, &k)| T::mk(k, i)).collect();
        let mut u: Vec<usize> = (0..keys.len()).collect();
        insertion_sort2_indexes(&mut v, &mut u, |a, b| a.key() < b.key());
        (v.iter().map(|x| x.tag()).collect::<Vec<_>>(), u)
    });
}
fn merge<T: SElem>(ctx: &mut Ctx, keys: &[usize]) {
    let n = keys.len();
    let mk = |b: usize| -> (Vec<T>, Vec<T>) { (keys.iter().enumerate().map(|(i, &k)| T::mk(k, i)).collect(), (0..b).map(|i| T::mk(1, n + i)).collect()) };
    let tg = |v: &[T]| v.iter().map(|x| x.tag()).collect::<Vec<_>>();
    for l in 0..=n + 1 { for b in [l, l.saturating_sub(1), l + 2] {
        o(ctx, || format!("merges of {} {:?} at {} with buffer {}", T::NAME, keys, l, b), || {
            let (mut v, mut u) = mk(b);
            let r = merge_internal_indices(&mut v, l, &mut u).is_ok();
            let (mut v2, mut u2) = mk(b);
            let r2 = merge_internal_ranges(&mut v2, l, &mut u2).is_ok();
            ((r, tg(&v), tg(&u)), (r2, tg(&v2), tg(&u2)))
        });
    } }
}
fn search<T: Ord>(ctx: &mut Ctx, name: &str, v: &[T], key: &T, what: &dyn Fn() -> String) {
    o(ctx, || format!("searches in {} {}", name, what()), || (lower_bound(v, key), lower_bound_raw_ptr(v, key), binary_search(v, key), binary_search_by(v, |x| x.cmp(key))));
}

fn units(t: Tier) -> Vec<Unit> {
    let mut us = algebra(t);
    for n in 0..=t.pick(4, 9, 13) {
        us.push(unit(format!("access, n={}", n), move |ctx| {
            access::<u8>(ctx, n);
            access::<u32>(ctx, n);
            access::<B3>(ctx, n);
            access::<()>(ctx, n);
            if n <= 6 { access::<mc::elem::Big>(ctx, n); access::<mc::elem::Heap>(ctx, n); access::<u64>(ctx, n); }
        }));
    }
    for n in 0..=t.pick(5, 7, 8) {
        us.push(unit(format!("sorts and merges, all weak orders of {}", n), move |ctx| {
            let (s1, s2, s3) = (All::sorters::<K>(), All::sorters::<KBig>(), All::sorters::<KZ>());
            gen::weak_orders(n, &mut |k| {
                sort(ctx, &s1, k);
                if n <= 6 { sort(ctx, &s2, k); sort(ctx, &s3, k); }
                // unsorted runs too: the outcome must be the same
                if n >= 1 && n <= t.pick(4, 6, 7) { merge::<K>(ctx, k); merge::<KHeap>(ctx, k); merge::<KZ>(ctx, k); }
            });
        }));
    }
    for n in t.pick(vec![25], vec![8, 9, 16, 23, 24, 25, 26, 33, 50, 65], vec![8, 9, 12, 16, 23, 24, 25, 26, 27, 33, 48, 49, 50, 51, 65, 100]) {
        us.push(unit(format!("sorts and merges, deviations of {}", n), move |ctx| {
            let s = All::sorters::<K>();
            gen::deviations(n, 1, &mut |_, k| sort(ctx, &s, k));
            gen::deviations(n, 0, &mut |_, k| merge::<K>(ctx, k));
        }));
    }
    us.push(unit("searches", move |ctx| {
        for n in (0..=t.pick(10, 40, 70usize)).chain([127, 128, 129, 255, 256, 257, 1000]) {
            ctx.states += 1;
            for m in [1usize, 2, 3, 7, 1000] {
                let r: Vec<usize> = (0..n).map(|i| 2 * (i / m) + 1).collect();
                let (v8, v32): (Vec<(u8, u8)>, Vec<u32>) = (r.iter().map(|&x| ((x >> 8) as u8, x as u8)).collect(), r.iter().map(|&x| x as u32).collect());
                let vb: Vec<[u64; 5]> = r.iter().map(|&x| [0, 0, x as u64, 0, 0]).collect();
                for k in (0..=2 * n / m + 2).take(300) {
                    search(ctx, "(u8, u8)", &v8, &((k >> 8) as u8, k as u8), &|| format!("{:?} for {}", r, k));
                    search(ctx, "u32", &v32, &(k as u32), &|| format!("{:?} for {}", r, k));
                    search(ctx, "[u64; 5]", &vb, &[0, 0, k as u64, 0, 0], &|| format!("{:?} for {}", r, k));
                }
            }
            search(ctx, "()", &vec![(); n], &(), &|| format!("{}", n));
        }
        for n in closures::big_lengths(t) {
            let v: &[()] = unsafe { std::slice::from_raw_parts(std::ptr::NonNull::dangling().as_ptr(), n) };
            search(ctx, "()", v, &(), &|| format!("{}", n));
        }
        // unsorted
        for n in 0..=t.pick(5, 7, 8) {
            gen::sequences(n, 3, &mut |v| for k in 0..3 { search(ctx, "unsorted", v, &k, &|| format!("{:?} for {}", v, k)); });
        }
    }));
    for n in t.pick(vec![], vec![255, 256, 257, 65535, 65536, 65537, 131_075], vec![255, 256, 257, 4095, 4096, 4097, 32768, 65535, 65536, 65537, 131_075]) {
        us.push(unit(format!("long, {}", n), move |ctx| long(ctx, n)));
    }
    us.push(unit("copy", move |ctx| {
        for n in 0..=t.pick(5, 12, 20) { for m in 0..=n + 3 {
            o(ctx, || format!("copy of {} to {}", n, m), || { let mut d = vec![0u16; m]; copy(&(1..=n as u16).collect::<Vec<_>>(), &mut d); d });
        } }
    }));
    us
}

fn main() {
    harness_main(units)
}
