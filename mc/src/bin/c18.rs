//! Index-based sorts.
use indexing::algorithms::*;
use mc::elem::*;
use mc::sorts::*;
use mc::*;

struct Idx;
impl Family for Idx {
    fn sorters<T: SElem>() -> Vec<Sorter<T>> {
        fn s<T>(name: &'static str, stable: bool, desc: bool, f: fn(&mut [T])) -> Sorter<T> { Sorter { name, stable, desc, f } }
        vec![
            s("quicksort_range", false, false, |v| quicksort_range(v)),
            s("quicksort_bounds", false, false, |v| quicksort_bounds(v)),
            s("insertion_sort_indexes", true, false, |v| insertion_sort_indexes(v, |a, b| a.key() < b.key())),
            s("insertion_sort_ranges", true, false, |v| insertion_sort_ranges(v, |a, b| a.key() < b.key())),
            s("insertion_sort_rust", true, false, |v| insertion_sort_rust(v, |a, b| a.key() < b.key())),
            s("insertion_sort_indexes (descending)", true, true, |v| insertion_sort_indexes(v, |a, b| a.key() > b.key())),
            s("insertion_sort_ranges (descending)", true, true, |v| insertion_sort_ranges(v, |a, b| a.key() > b.key())),
            s("insertion_sort_rust (descending)", true, true, |v| insertion_sort_rust(v, |a, b| a.key() > b.key())),
        ]
    }
}

/// The two-container sort: the second slice is rearranged identically.
fn two<T: SElem, U: Elem>(ctx: &mut Ctx, keys: &[usize], desc: bool) {
    let n = keys.len();
    let d = |m: String| format!("insertion_sort2_indexes{} of {} and {} elements {:?}: {}", if desc { " (descending)" } else { "" }, T::NAME, U::NAME, keys, m);
    live_reset();
    ctx.case(|| d(String::new()));
    ctx.transitions += 1;
    {
        let mut v = with_guards::<T>(keys);
        let mut u = Guarded::<U>::new(n);
        if guarded_quiet(|| {
            if desc { insertion_sort2_indexes(&mut v[PAD..PAD + n], u.mid_mut(), |a, b| a.key() > b.key()) } else { insertion_sort2_indexes(&mut v[PAD..PAD + n], u.mid_mut(), |a, b| a.key() < b.key()) }
        }).is_err() { fail(d(format!("panicked: {}", last_panic()))) }
        if !guards_ok(&v, n) || !u.guards_ok() { fail(d("changed an element outside the slices".into())); }
        if !T::ZST {
            let mid = &v[PAD..PAD + n];
            let tags = permuted(mid, keys).unwrap_or_else(|e| fail(d(e)));
            let mut want: Vec<usize> = (0..n).collect();
            if desc { want.sort_by(|&a, &b| keys[b].cmp(&keys[a])) } else { want.sort_by_key(|&i| keys[i]) }
            if tags != want { fail(d(format!("first slice has original positions {:?} instead of {:?}", tags, want))); }
            let got = u.ids();
            if got != want.iter().map(|&i| U::mk_id(i)).collect::<Vec<_>>() { fail(d(format!("second slice has original positions {:?}, the first {:?}", got, tags))); }
            ctx.obs(&tags);
        }
        ctx.nontrivial += (n > 1) as u64;
    }
    if let Some((i, c)) = live_bad(0, 0) { fail(d(format!("element {} is live {} times after everything was dropped", i, c))); }
}
/// Different lengths are refused before anything is compared or changed.
fn unequal<T: SElem, U: Elem>(ctx: &mut Ctx, n: usize, m: usize) {
    let d = |s: &str| format!("insertion_sort2_indexes with {} {} and {} {}: {}", n, T::NAME, m, U::NAME, s);
    ctx.case(|| d(""));
    ctx.transitions += 1;
    live_reset();
    {
        let keys: Vec<usize> = (0..n).rev().collect();
        let mut v = with_guards::<T>(&keys);
        let mut u = Guarded::<U>::new(m);
        let mut calls = 0;
        let r = guarded_quiet(|| insertion_sort2_indexes(&mut v[PAD..PAD + n], u.mid_mut(), |a, b| { calls += 1; a.key() < b.key() }));
        ctx.ck(r.is_ok() == (n == m), || d(if r.is_ok() { "accepted" } else { "panicked" }));
        if n != m {
            ctx.ck(calls == 0, || d("compared elements before refusing"));
            let same = T::ZST || v[PAD..PAD + n].iter().enumerate().all(|(i, x)| x.tag() == i);
            ctx.ck(same && guards_ok(&v, n), || d("changed the first slice before refusing"));
            ctx.ck(u.ids() == (0..m).map(|i| U::mk_id(i)).collect::<Vec<_>>() && u.guards_ok(), || d("changed the second slice before refusing"));
        }
        ctx.obs(&(n, m, r.is_ok()));
        ctx.states += 1;
        ctx.nontrivial += 1;
    }
    if let Some((i, c)) = live_bad(0, 0) { fail(d(&format!("element {} is live {} times after everything was dropped", i, c))); }
}

fn units(t: Tier) -> Vec<Unit> {
    let mut us = sorts::units::<Idx>(t);
    fn weak<T: SElem, U: Elem>(us: &mut Vec<Unit>, ns: std::ops::RangeInclusive<usize>) {
        for n in ns {
            us.push(unit(format!("two containers, {} and {}, all weak orders of {}", T::NAME, U::NAME, n), move |ctx| {
                gen::weak_orders(n, &mut |keys| {
                    ctx.states += 1;
                    two::<T, U>(ctx, keys, false);
                    if n <= 6 { two::<T, U>(ctx, keys, true); }
                });
            }));
        }
    }
    weak::<K, u16>(&mut us, 0..=t.pick(5, 7, 8));
    weak::<K, Big>(&mut us, 0..=t.pick(4, 6, 7));
    weak::<KTok, Heap>(&mut us, 0..=t.pick(4, 5, 6));
    weak::<KBig, Tok>(&mut us, 0..=t.pick(4, 5, 6));
    weak::<K, Ztok>(&mut us, 0..=t.pick(4, 5, 6));
    weak::<KVast, Vast>(&mut us, 0..=t.pick(3, 4, 5));
    weak::<KByte, Mid>(&mut us, 0..=t.pick(3, 4, 5));
    weak::<KZ, u8>(&mut us, 0..=t.pick(4, 6, 8));
    for n in t.pick(vec![9], vec![8, 9, 10, 16, 24, 25, 33, 64], vec![8, 9, 10, 11, 12, 16, 24, 25, 26, 33, 64, 65, 100]) {
        us.push(unit(format!("two containers, deviations of {}", n), move |ctx| {
            gen::deviations(n, 1, &mut |_, keys| { ctx.states += 1; two::<K, u16>(ctx, keys, false) });
        }));
    }
    us.push(unit("two containers, base patterns", move |ctx| {
        for n in t.pick(vec![], vec![127, 129, 255, 257, 600, 1025], vec![127, 129, 255, 257, 600, 1025, 2100, 4100]) {
            gen::deviations(n, 0, &mut |_, keys| { ctx.states += 1; two::<K, u16>(ctx, keys, false); two::<KBig, B3>(ctx, keys, false) });
        }
    }));
    for n in t.pick(vec![], vec![65537, 131_075], vec![65535, 65536, 65537, 70_000, 131_075]) {
        us.push(unit(format!("two containers, one element of {} elsewhere", n), move |ctx| {
            for i in [0, 1, 256, 65535, 65536, n - 2, n - 1] { for j in [0, 1, 256, 65535, 65536, n - 2, n - 1] {
                if i >= n || j >= n { continue; }
                let mut keys: Vec<usize> = (0..n).map(|k| k / 2).collect();
                let x = keys.remove(i);
                keys.insert(j, x);
                ctx.states += 1;
                two::<K, u32>(ctx, &keys, false);
            } }
        }));
    }
    us.push(unit("two containers of different lengths", move |ctx| {
        for n in 0..=t.pick(6, 24, 40) { for m in 0..=t.pick(6, 24, 40) {
            unequal::<K, u16>(ctx, n, m);
            unequal::<KTok, Heap>(ctx, n, m);
            unequal::<KZ, u8>(ctx, n, m);
            unequal::<K, ()>(ctx, n, m);
        } }
    }));
    us
}

fn main() {
    harness_main(units)
}
