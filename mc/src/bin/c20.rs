//! Heapify.
use indexing::algorithms::heapify;
use mc::elem::*;
use mc::sorts::*;
use mc::*;

fn run<T: SElem>(ctx: &mut Ctx, keys: &[usize]) {
    let n = keys.len();
    let d = |m: String| format!("heapify of {} elements {:?}: {}", T::NAME, keys, m);
    ctx.case(|| d(String::new()));
    ctx.transitions += 1;
    ctx.states += 1;
    let mut v = with_guards::<T>(keys);
    if guarded_quiet(|| heapify(&mut v[PAD..PAD + n])).is_err() { fail(d(format!("panicked: {}", last_panic()))) }
    if !T::ZST {
        if !guards_ok(&v, n) { fail(d("changed an element outside the slice".into())); }
        let mid = &v[PAD..PAD + n];
        let tags = permuted(mid, keys).unwrap_or_else(|e| fail(d(e)));
        for i in 1..n {
            if mid[(i - 1) / 2].key() > mid[i].key() { fail(d(format!("result {:?}: element {} is greater than its child {}", mid.iter().map(|x| x.key()).collect::<Vec<_>>(), (i - 1) / 2, i))); }
        }
        ctx.obs(&tags);
    } else { ctx.obs(&n) }
    ctx.nontrivial += (n > 1) as u64;
}
fn owned<T: SElem>(ctx: &mut Ctx, keys: &[usize]) {
    live_reset();
    run::<T>(ctx, keys);
    if let Some((i, c)) = live_bad(0, 0) { fail(format!("heapify of {} elements {:?}: element {} is live {} times after everything was dropped", T::NAME, keys, i, c)); }
}

fn units(t: Tier) -> Vec<Unit> {
    let mut us = vec![];
    for n in 0..=t.pick(6, 8, 10) {
        let parts = if n >= 10 { 64 } else if n >= 8 { 8 } else { 1 };
        for p in 0..parts {
            us.push(unit(format!("all weak orders of {} part {}/{}", n, p + 1, parts), move |ctx| gen::weak_orders_part(n, p, parts, &mut |k| run::<K>(ctx, k))));
        }
    }
    for n in 0..=t.pick(5, 7, 8) {
        us.push(unit(format!("owned, all weak orders of {}", n), move |ctx| gen::weak_orders(n, &mut |k| {
            owned::<KTok>(ctx, k);
            run::<KBig>(ctx, k);
            run::<KHeap>(ctx, k);
            if n <= 6 { run::<KVast>(ctx, k); run::<KByte>(ctx, k); }
            run::<KZ>(ctx, k);
        })));
    }
    for n in 0..=t.pick(8, 16, 21) {
        us.push(unit(format!("two-valued, {}", n), move |ctx| gen::sequences(n, 2, &mut |k| run::<K>(ctx, k))));
    }
    for n in 0..=t.pick(5, 10, 13) {
        us.push(unit(format!("three-valued, {}", n), move |ctx| gen::sequences(n, 3, &mut |k| run::<K>(ctx, k))));
    }
    for n in 9..=t.pick(12, 80, 140usize) {
        us.push(unit(format!("deviations of {}", n), move |ctx| gen::deviations(n, if n <= t.pick(0, 14, 28) { 2 } else { 1 }, &mut |_, k| run::<K>(ctx, k))));
    }
    us.push(unit("base patterns of large sizes", move |ctx| {
        for n in t.pick(vec![100], vec![127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 5000, 32768, 65535, 65536, 65537, 131_075], vec![127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 5000, 30000, 32768, 65535, 65536, 65537, 131_071, 131_075, 300_000]) {
            gen::deviations(n, 0, &mut |_, k| run::<K>(ctx, k));
            run::<KZ>(ctx, &vec![0; n]);
        }
    }));
    fn large<T: SElem>(us: &mut Vec<Unit>, n: usize) {
        us.push(unit(format!("base patterns of {} x {}", n, T::NAME), move |ctx| gen::deviations(n, 0, &mut |_, k| owned::<T>(ctx, k))));
    }
    for n in t.pick(vec![], vec![100, 1000, 5000, 20_000], vec![100, 600, 1000, 2100, 5000, 10_000, 20_000, 40_000, 65_000]) {
        large::<KBig>(&mut us, n);
        large::<KTok>(&mut us, n);
        large::<KHeap>(&mut us, n);
        large::<KVast>(&mut us, n);
    }
    for n in t.pick(vec![], vec![65537, 131_075], vec![65537, 131_075, 262_147]) {
        large::<KBig>(&mut us, n);
        if n < 70_000 { large::<KVast>(&mut us, n); }
    }
    us
}

fn main() {
    harness_main(units)
}
