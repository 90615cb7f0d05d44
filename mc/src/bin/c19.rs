//! In-place merging: every pair of sorted runs.
use indexing::algorithms::*;
use mc::elem::*;
use mc::sorts::*;
use mc::*;

type Merge<T> = fn(&mut [T], usize, &mut [T]) -> Result<(), AlgorithmError>;
fn merges<T: SElem>() -> [(&'static str, Merge<T>); 2] {
    [("merge_internal_indices", merge_internal_indices::<T>), ("merge_internal_ranges", merge_internal_ranges::<T>)]
}

/// `keys`: left run then right run, split at `left`; buffer of `buf` elements whose key is `bkey`.
fn run<T: SElem>(ctx: &mut Ctx, name: &str, f: Merge<T>, keys: &[usize], left: usize, buf: usize, bkey: usize) {
    let n = keys.len();
    let d = |m: String| format!("{} of {} elements {:?} split at {}, buffer of {} (keys {}): {}", name, T::NAME, keys, left, buf, bkey, m);
    ctx.case(|| d(String::new()));
    ctx.transitions += 1;
    live_reset();
    {
        let mut v = with_guards::<T>(keys);
        // the buffer's elements have tags from B on
        #[allow(non_snake_case)]
        let B: usize = if n + buf < 800 { 1000 } else { 1 << 20 };
        let mut b: Vec<T> = (0..buf + 2 * PAD).map(|i| T::mk(bkey, B + i)).collect();
        let mut calls_ok = true;
        let r = match guarded_quiet(|| f(&mut v[PAD..PAD + n], left, &mut b[PAD..PAD + buf])) {
            Ok(r) => r.is_ok(),
            Err(_) => fail(d(format!("panicked: {}", last_panic()))),
        };
        let _ = &mut calls_ok;
        let legal = left <= n && left <= buf;
        if r != legal { fail(d(if r { "reports success".into() } else { "reports an error".into() })); }
        if !T::ZST {
            if !guards_ok(&v, n) { fail(d("changed an element outside the data".into())); }
            let mid = &v[PAD..PAD + n];
            let tags = permuted(mid, keys).unwrap_or_else(|e| fail(d(format!("data: {}", e))));
            let mut want: Vec<usize> = (0..n).collect();
            if legal { want.sort_by_key(|&i| keys[i]); }
            if tags != want { fail(d(format!("data has original positions {:?} instead of {:?}", tags, want))); }
            let bt: Vec<usize> = b.iter().map(|x| x.tag().wrapping_sub(B)).collect();
            let swapped = if legal { left } else { 0 };
            let mut s: Vec<usize> = bt[PAD..PAD + swapped].to_vec();
            s.sort();
            if s != (PAD..PAD + swapped).collect::<Vec<_>>() { fail(d(format!("the used part of the buffer has original positions {:?}", bt))); }
            if let Some(i) = (0..bt.len()).find(|&i| (i < PAD || i >= PAD + swapped) && bt[i] != i) { fail(d(format!("buffer element {} was replaced by {}", i as isize - PAD as isize, bt[i] as isize - PAD as isize))); }
            if b.iter().any(|x| x.key() != bkey) { fail(d("buffer keys changed".into())); }
            ctx.obs(&(&tags, left, buf));
        } else {
            ctx.obs(&(n, left, buf));
        }
        ctx.nontrivial += (left > 0 && left < n) as u64;
    }
    if let Some((i, c)) = live_bad(0, 0) { fail(d(format!("element {} is live {} times after everything was dropped", i, c))); }
}

/// Every pair of sorted runs of lengths l and r, up to order isomorphism.
fn runs(l: usize, r: usize, f: &mut dyn FnMut(&[usize])) {
    // each value takes i elements of the left run and j of the right
    fn rec(a: &mut Vec<usize>, b: &mut Vec<usize>, l: usize, r: usize, val: usize, f: &mut dyn FnMut(&[usize])) {
        if a.len() == l && b.len() == r {
            let mut k = a.clone();
            k.extend_from_slice(b);
            f(&k);
            return;
        }
        for i in 0..=l - a.len() {
            for j in 0..=r - b.len() {
                if i + j == 0 { continue; }
                let (x, y) = (a.len(), b.len());
                a.resize(x + i, val);
                b.resize(y + j, val);
                rec(a, b, l, r, val + 1, f);
                a.truncate(x);
                b.truncate(y);
            }
        }
    }
    rec(&mut vec![], &mut vec![], l, r, 1, f)
}

fn all<T: SElem>(us: &mut Vec<Unit>, from: usize, to: usize, wide: bool) {
    for n in from..=to {
        for l in 0..=n {
            us.push(unit(format!("runs of {} and {} {}", l, n - l, T::NAME), move |ctx| {
                runs(l, n - l, &mut |keys| {
                    ctx.states += 1;
                    for (name, f) in merges::<T>() {
                        // the buffer's keys: below, among and above the data's
                        let ks: &[usize] = if wide { &[0, 2, 99] } else { &[2] };
                        let bufs: Vec<usize> = if wide { vec![l, l + 1, l + 2, n.max(l + 3)] } else { vec![l, l + 1] };
                        for &buf in &bufs { for &k in ks {
                            run(ctx, name, f, keys, l, buf, k);
                        } }
                    }
                });
            }));
        }
    }
}

fn units(t: Tier) -> Vec<Unit> {
    let mut us = vec![];
    all::<K>(&mut us, 1, t.pick(6, 8, 9), true);
    all::<K>(&mut us, t.pick(7, 9, 10), t.pick(7, 10, 12), false);
    all::<KTok>(&mut us, 1, t.pick(5, 6, 8), true);
    all::<KBig>(&mut us, 1, t.pick(5, 6, 8), false);
    all::<KVast>(&mut us, 1, t.pick(3, 5, 6), false);
    all::<KHeap>(&mut us, 1, t.pick(5, 6, 8), false);
    us.push(unit("refusals", move |ctx| {
        // every split point and buffer length; the data is sorted, so that any split point is legal for it
        fn go<T: SElem>(ctx: &mut Ctx, n: usize, mx: usize) {
            let keys: Vec<usize> = (0..n).map(|i| i / 2).collect();
            for buf in 0..=mx {
                let mut lefts: Vec<usize> = (0..=mx + 1).collect();
                lefts.extend([255, 256, 65535, 65536, 1 << 32, isize::MAX as usize, isize::MAX as usize + 1, usize::MAX - 1, usize::MAX, usize::MAX - n + 1, usize::MAX / 4 + 1]);
                for left in lefts {
                    for (name, f) in merges::<T>() {
                        run(ctx, name, f, &keys, left, buf, 1);
                    }
                }
            }
            // and unsorted data is untouched by a refusal
            let rev: Vec<usize> = (0..n).rev().collect();
            for buf in 0..=mx { for left in buf + 1..=mx + 1 { for (name, f) in merges::<T>() {
                run(ctx, name, f, &rev, left.max(1), buf.min(left - 1), 1);
            } } }
            for left in n + 1..n + 4 { for (name, f) in merges::<T>() { run(ctx, name, f, &rev, left, n + 5, 1); } }
            ctx.states += 1;
        }
        for n in 1..=t.pick(5, 12, 20) {
            go::<K>(ctx, n, n + 3);
            go::<KTok>(ctx, n, n + 3);
            go::<KHeap>(ctx, n, n + 3);
            go::<KZ>(ctx, n, n + 3);
        }
    }));
    // longer runs: patterns
    for n in t.pick(vec![], vec![16, 33, 64], vec![16, 31, 32, 33, 63, 64, 65, 100]) {
        us.push(unit(format!("patterns of {}", n), move |ctx| {
            for l in 0..=n {
                for a in 1..=4usize { for b in 1..=4usize { for shift in [0, 1, n / 2, n, 3 * n] { for side in [false, true] {
                    let mut keys: Vec<usize> = (0..l).map(|i| (i / a) * b + if side { shift } else { 0 }).collect();
                    keys.extend((0..n - l).map(|i| (i / b) * a + if side { 0 } else { shift }));
                    ctx.states += 1;
                    for (name, f) in merges::<K>() { run(ctx, name, f, &keys, l, l, 7); }
                } } } }
            }
        }));
        // two-valued runs: every pair of step positions, every split
        us.push(unit(format!("stepped runs of {}", n), move |ctx| {
            for l in 0..=n { for x in 0..=l { for y in 0..=n - l {
                let keys: Vec<usize> = (0..n).map(|i| if i < l { 1 + (i >= x) as usize } else { 1 + (i - l >= y) as usize }).collect();
                ctx.states += 1;
                for (name, f) in merges::<K>() { run(ctx, name, f, &keys, l, l + 1, 2); }
            } } }
        }));
    }
    // long runs that alternate in blocks: p elements from one run, then q from the other
    for n in t.pick(vec![40], vec![96, 128, 200, 300, 777], vec![96, 128, 200, 300, 512, 777, 1000, 2000]) {
        us.push(unit(format!("blocks of {}", n), move |ctx| {
            const B: [usize; 13] = [1, 2, 3, 5, 8, 15, 16, 17, 31, 33, 64, 65, 100];
            let mut ls = vec![1, 2, n / 4, n / 3, n / 2 - 1, n / 2, n / 2 + 1, 2 * n / 3, 7 * n / 8, n - 2, n - 1];
            ls.dedup();
            for &l in &ls { for p in B { for q in B { for side in [false, true] { for ties in [1, 2, 7, 40] {
                let (mut a, mut b) = (vec![], vec![]);
                let mut left = side;
                while a.len() < l || b.len() < n - l {
                    let pos = a.len() + b.len();
                    let (x, room) = if left { (&mut a, l) } else { (&mut b, n - l) };
                    let k = (if left { p } else { q }).min(room - x.len());
                    x.extend((pos..pos + k).map(|i| 1 + i / ties));
                    left = !left;
                }
                a.extend(b);
                ctx.states += 1;
                for (name, f) in merges::<K>() { run(ctx, name, f, &a, l, l + (p + q) % 3, 1 + n / 2); }
            } } } } }
        }));
    }
    fn long<T: SElem>(us: &mut Vec<Unit>, n: usize, sep: bool) {
        us.push(unit(format!("long runs of {} x {}", n, T::NAME), move |ctx| {
            for l in [1, 255.min(n - 1), 256.min(n - 1), n / 2, n - 65536.min(n - 1), n - 1] { for (p, q) in [(1, 1), (n, n), (40_000, 300), (255, 65536), (3, 1000)] { for side in [false, true] {
                let (mut a, mut b) = (vec![], vec![]);
                let mut left = side;
                while a.len() < l || b.len() < n - l {
                    let pos = a.len() + b.len();
                    let (x, room) = if left { (&mut a, l) } else { (&mut b, n - l) };
                    let k = (if left { p } else { q }).min(room - x.len());
                    x.extend((pos..pos + k).map(|i| 1 + i / 3));
                    left = !left;
                }
                a.extend(b);
                ctx.states += 1;
                for (name, f) in merges::<T>() { run(ctx, name, f, &a, l, l, if sep { 0 } else { 1 }); }
            } } }
        }));
    }
    for n in t.pick(vec![], vec![65537, 70_000, 131_075], vec![65535, 65536, 65537, 70_000, 131_075, 300_000]) { long::<K>(&mut us, n, false); }
    for n in t.pick(vec![], vec![100, 300], vec![50, 100, 200, 300, 399]) {
        long::<KTok>(&mut us, n, false);
        long::<KHeap>(&mut us, n, false);
    }
    for n in t.pick(vec![], vec![100, 600, 1100, 5000], vec![100, 300, 600, 1100, 2100, 5000, 20_000]) {
        long::<KBig>(&mut us, n, false);
        long::<KVast>(&mut us, n, false);
    }
    for n in t.pick(vec![], vec![65537], vec![65537, 131_075]) { long::<KBig>(&mut us, n, true); }
    us
}

fn main() {
    harness_main(units)
}
